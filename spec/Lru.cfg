SPECIFICATION Spec
CONSTANTS Threads = {1, 2}
 Keys = {1, 2}
 Max = 1
 Ops = 2
INVARIANTS Bounded OnePerKey RightKey Fresh SingleFlight Accounted OnlyCached
PROPERTY Ends
CHECK_DEADLOCK FALSE
