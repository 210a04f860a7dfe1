CONSTANTS
Primes = {13, 17, 19, 23, 31, 61, 127, 251, 509, 1021}
Ts = {2, 3, 4}
Skips = {0, 1, 2, 3, 5}
INIT Init
NEXT Next
INVARIANTS InField MinorsNonZero
CHECK_DEADLOCK FALSE
