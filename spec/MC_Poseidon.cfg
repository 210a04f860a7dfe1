CONSTANTS
Seeds = {0, 1, 2, 3}
Primes = {2, 3, 5, 7}
RPs = {0, 1, 2, 5}
INIT Init
NEXT Next
INVARIANTS SamePermutation FirstWordOnly FullUntouched
CHECK_DEADLOCK FALSE
