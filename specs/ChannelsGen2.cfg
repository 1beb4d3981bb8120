CONSTANTS Ids = {1, 2, 3}
MaxChannels = 3
MaxOps = 2
Threads = 1
NFreq = 1
Shared = FALSE
SPECIFICATION GenSpec
CHECK_DEADLOCK FALSE
