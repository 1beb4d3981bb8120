CONSTANTS Ids = {1, 2, 3}
MaxChannels = 3
MaxOps = 0
Threads = 3
NFreq = 5
Shared = FALSE
SPECIFICATION LoopSpec
INVARIANT SameAsOne
CHECK_DEADLOCK FALSE
