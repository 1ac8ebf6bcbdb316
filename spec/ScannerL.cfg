SPECIFICATION Live
CONSTANTS
 Chunks = {a, b}
 MaxSize = 5
 MinSize = 1
 MaxVer = 2
 MaxFails = 2
 MaxStops = 1
 Threshold = 1
PROPERTIES Stops Copied
CHECK_DEADLOCK FALSE
