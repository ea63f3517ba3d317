SPECIFICATION MSpec
VIEW MView
CONSTANTS MaxDec = 3
 Sets = {1, 2, 3, 4, 5, 6}
 Pars = {1, 2, 3, 4, 5}
PROPERTIES Antisymmetric DetailedBalance
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
