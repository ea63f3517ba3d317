SPECIFICATION TSpec
CONSTANT Mode = "sound"
CHECK_DEADLOCK FALSE
