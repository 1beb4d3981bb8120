CONSTANTS Ids = {1, 2, 3}
MaxChannels = 3
MaxOps = 4
Threads = 1
NFreq = 1
Shared = FALSE
SPECIFICATION OpsSpec
PROPERTIES Local Neutral
CHECK_DEADLOCK FALSE
