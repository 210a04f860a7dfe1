CONSTANTS
Primes = {13, 17, 31, 61, 127, 251}
Ts = {2, 3}
Skips = {0, 1, 3}
INIT Init
NEXT Next
INVARIANTS InField MinorsNonZero
CHECK_DEADLOCK FALSE
