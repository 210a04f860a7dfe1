CONSTANTS
Prime = 5
MaxRows = 3
Step = 1
WordSet = {1}
DomSet = {2}
INIT Init
NEXT Next
INVARIANT Same
INVARIANT NoRevival
CHECK_DEADLOCK FALSE
