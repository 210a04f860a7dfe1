------------------------------- MODULE MC_Grain -------------------------------
(* Generator facts for a grid of toy instances: samples of the matrix are    *)
(* pairwise distinct, every constant is a field element, the Cauchy matrix   *)
(* (when it exists) is invertible.                                           *)
EXTENDS Grain, TLC
CONSTANTS Primes, Ts, Skips
VARIABLES p, t, skip, g
f == [big |-> FALSE, p |-> p]
Init == p \in Primes /\ t \in Ts /\ skip \in Skips /\ g = <<>>
Next == g = <<>> /\ g' = GenParams([big |-> FALSE, p |-> p], t, 4, 3, skip) /\ UNCHANGED <<p, t, skip>>
InField == g # <<>> => \A r \in 1..7 : \A i \in 1..t : FIn(f, g.rc[r][i])
Det2(m) == (m[1][1] * m[2][2] - m[1][2] * m[2][1]) % p
MinorsNonZero == (g # <<>> /\ g.ok) =>
  \A i, j \in 1..t : \A k, l \in 1..t :
     (i < j /\ k < l) => Det2(<< <<g.mds[i][k], g.mds[i][l]>>, <<g.mds[j][k], g.mds[j][l]>> >>) # 0
===============================================================================
