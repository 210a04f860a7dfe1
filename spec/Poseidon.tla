------------------------------- MODULE Poseidon -------------------------------
(* The Poseidon permutation as a machine of rounds.                          *)
(* A parameter set is a record                                               *)
(*   [f, t, rate, rf, rp, alpha, rc, mds]                                    *)
(* with rc a sequence of rf+rp sequences of t constants and mds a t x t      *)
(* matrix (sequence of rows).                                                *)
EXTENDS Field

Range1(n) == [i \in 1..n |-> i]

SBox(pr, x) == FPow(pr.f, x, pr.alpha)
MatVec(f, m, v) == [i \in 1..Len(v) |-> FDot(f, m[i], v)]

\* round r, counted from 1
IsFull(pr, r) == r <= pr.rf \div 2 \/ r > pr.rf \div 2 + pr.rp
NumRounds(pr) == 2 * (pr.rf \div 2) + pr.rp

Round(pr, s, r) ==
  LET a == [i \in 1..pr.t |-> FAdd(pr.f, s[i], pr.rc[r][i])]
      b == [i \in 1..pr.t |-> IF i = 1 \/ IsFull(pr, r) THEN SBox(pr, a[i]) ELSE a[i]]
  IN MatVec(pr.f, pr.mds, b)

Permute(pr, s) == FoldLeft(LAMBDA st, r : Round(pr, st, r), s, Range1(NumRounds(pr)))

(* Optimised constants: in a partial round only the first word passes the    *)
(* S-box, so the constants of the other words can be carried through the     *)
(* matrix into the next round.                                               *)
Compact(pr) ==
  LET first == pr.rf \div 2 + 1
      last == pr.rf \div 2 + pr.rp
      Step(rc, i) ==
        LET tail == [j \in 1..pr.t |-> IF j = 1 THEN FZero(pr.f) ELSE rc[i][j]]
            carry == MatVec(pr.f, pr.mds, tail)
        IN [rc EXCEPT ![i] = [j \in 1..pr.t |-> IF j = 1 THEN rc[i][1] ELSE FZero(pr.f)],
                      ![i + 1] = [j \in 1..pr.t |-> FAdd(pr.f, rc[i + 1][j], carry[j])]]
  IN FoldLeft(Step, pr.rc, [k \in 1..pr.rp |-> first + k - 1])

MatMul(f, a, b) ==
  [i \in 1..Len(a) |-> [j \in 1..Len(a) |-> FDot(f, a[i], [k \in 1..Len(a) |-> b[k][j]])]]
Identity(f, n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN FOne(f) ELSE FZero(f)]]
===============================================================================
