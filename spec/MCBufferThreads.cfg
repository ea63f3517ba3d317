SPECIFICATION TSpec
CONSTANTS
 Threads = {1, 2, 3}
 Size = 2
 Want = 2
 Checked = FALSE
INVARIANTS NeverFails NoDrawTwice
PROPERTIES EverybodyServed
CHECK_DEADLOCK FALSE
