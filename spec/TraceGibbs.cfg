SPECIFICATION TSpec
CONSTANT Fresh = TRUE
CHECK_DEADLOCK FALSE
