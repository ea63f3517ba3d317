SPECIFICATION TSpec
CONSTANTS
  Mode = "seeded"
  Size = 2
  Need = 3
  Workers = 2
CHECK_DEADLOCK FALSE
