SPECIFICATION TSpec
CONSTANTS
 Mode = "sound"
CHECK_DEADLOCK FALSE
