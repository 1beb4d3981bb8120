CONSTANTS Ids = {1, 2, 3}
MaxChannels = 4
MaxOps = 0
Threads = 1
NFreq = 1
Shared = FALSE
SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
