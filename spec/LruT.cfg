SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3}
 Keys = {1}
 Max = 1
 Ops = 2
INVARIANTS Bounded OnePerKey RightKey Fresh SingleFlight Accounted OnlyCached
PROPERTY Ends
CHECK_DEADLOCK FALSE
