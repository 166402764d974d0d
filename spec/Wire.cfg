CONSTANTS MaxNameLen = 255 MaxSigLen = 255 MaxArrayDepth = 32 MaxStructDepth = 32 MaxDictDepth = 32 MaxArrayLen = 67108864 MaxMsgLen = 134217728
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
