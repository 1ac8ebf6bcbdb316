SPECIFICATION Spec
CONSTANTS
 Chunks = {a, b, c}
 MaxSize = 2
 MinSize = 1
 MaxVer = 2
 MaxFails = 1
 MaxStops = 1
 Threshold = 1
CONSTRAINT Bound
INVARIANTS TypeOK NothingLost OpenStays KnownIsTrue
PROPERTIES OnlyWhatIsNeeded OldestFirst
CHECK_DEADLOCK FALSE
