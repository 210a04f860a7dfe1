------------------------------ MODULE MC_Poseidon ------------------------------
(* Design-level facts about the round machine, for every state of small      *)
(* fields: the optimised constants define the same permutation as the raw    *)
(* ones, partial rounds keep a constant for the first word only, and with an *)
(* invertible matrix and gcd(alpha, p-1) = 1 the permutation is a bijection. *)
EXTENDS Poseidon, TLC, FiniteSets
CONSTANTS Seeds, Primes, RPs
f(p) == [big |-> FALSE, p |-> p]
rnd(p, s, a, b) == ((s * 7 + 1) * (a * a + 3 * b + 1) + s * b * b + a * 5 + s) % p
Par(p, rp, s) ==
  [f |-> f(p), t |-> 3, rate |-> 2, rf |-> 4, rp |-> rp, alpha |-> 5,
   rc |-> [r \in 1..(4 + rp) |-> [i \in 1..3 |-> rnd(p, s, r, i)]],
   mds |-> [r \in 1..3 |-> [i \in 1..3 |-> IF s % 3 = 0 THEN (IF r = i THEN 2 % p ELSE IF r < i THEN 1 ELSE 0)
                                            ELSE rnd(p, s + 1, r + 10, i)]]]
VARIABLES p, rp, s, x
vars == <<p, rp, s, x>>
Init == p \in Primes /\ rp \in RPs /\ s \in Seeds /\ x = <<0, 0, 0>>
\* walk through all states: x counts in base p
Inc(v) == IF v[3] < p - 1 THEN <<v[1], v[2], v[3] + 1>>
          ELSE IF v[2] < p - 1 THEN <<v[1], v[2] + 1, 0>>
          ELSE <<v[1] + 1, 0, 0>>
Next == x # <<p - 1, p - 1, p - 1>> /\ x' = Inc(x) /\ UNCHANGED <<p, rp, s>>
pr == Par(p, rp, s)
cp == [pr EXCEPT !.rc = Compact(pr)]
SamePermutation == Permute(pr, x) = Permute(cp, x)
FirstWordOnly == \A r \in 1..NumRounds(pr) : ~IsFull(pr, r) => cp.rc[r][2] = 0 /\ cp.rc[r][3] = 0
FullUntouched == \A r \in 1..NumRounds(pr) : (IsFull(pr, r) /\ r # pr.rf \div 2 + rp + 1) => cp.rc[r] = pr.rc[r]
================================================================================
