CONSTANTS
  Words = {0, 1, 2}
  Caps = {0, 1, 2}
  MaxLen = 4
  TT = 3
  RATE = 2
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
