CONSTANTS
Seeds = {0, 1, 2, 3, 4, 5, 6, 7}
Primes = {2, 3, 5, 7, 11}
RPs = {0, 1, 2, 3, 5, 9, 57}
INIT Init
NEXT Next
INVARIANTS SamePermutation FirstWordOnly FullUntouched
CHECK_DEADLOCK FALSE
