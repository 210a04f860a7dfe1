------------------------------ MODULE BigField ------------------------------
(* Arithmetic of a prime field whose modulus does not fit TLC's 32-bit      *)
(* integers.  An element is a sequence of NL limbs of 15 bits, least        *)
(* significant limb first, its value being smaller than the modulus P       *)
(* (itself such a sequence).                                                *)
(*                                                                          *)
(* The definitions below are the meaning of the operators.  When TLC finds  *)
(* java/BigField.class on its class path it evaluates them with             *)
(* java.math.BigInteger instead; MC_BigField.tla compares the two.          *)
EXTENDS Naturals, Sequences, SequencesExt

NL == 17
LB == 15
Base == 32768

RECURSIVE TwoTo(_)
TwoTo(n) == IF n = 0 THEN 1 ELSE 2 * TwoTo(n - 1)

BZero == [i \in 1..NL |-> 0]

\* a < b
BLess(a, b) ==
  \E i \in 1..NL : a[i] < b[i] /\ \A j \in (i + 1)..NL : a[j] = b[j]

\* plain (non-modular) sum; the carry out of the last limb is kept there
LOCAL PlainAdd(a, b) ==
  LET Step(acc, i) ==
        LET v == a[i] + b[i] + acc.c
        IN IF i = NL THEN [c |-> 0, r |-> Append(acc.r, v)]
           ELSE [c |-> v \div Base, r |-> Append(acc.r, v % Base)]
  IN FoldLeft(Step, [c |-> 0, r |-> <<>>], [i \in 1..NL |-> i]).r

\* plain difference, a >= b
LOCAL PlainSub(a, b) ==
  LET Step(acc, i) ==
        LET v == a[i] + Base - b[i] - acc.c
        IN IF i = NL THEN [c |-> 0, r |-> Append(acc.r, a[i] - b[i] - acc.c)]
           ELSE [c |-> IF v < Base THEN 1 ELSE 0, r |-> Append(acc.r, v % Base)]
  IN FoldLeft(Step, [c |-> 0, r |-> <<>>], [i \in 1..NL |-> i]).r

LOCAL Norm(P, a) == IF BLess(a, P) THEN a ELSE PlainSub(a, P)

PureAdd(P, a, b) == Norm(P, PlainAdd(a, b))
PureSub(P, a, b) == IF BLess(a, b) THEN PlainSub(PlainAdd(a, P), b) ELSE PlainSub(a, b)

\* bit i (0 = least significant) of a
LOCAL Bit(a, i) == (a[(i \div LB) + 1] \div TwoTo(i % LB)) % 2
LOCAL HighToLow == [i \in 1..(NL * LB) |-> NL * LB - i]

\* double-and-add from the most significant bit of b
PureMul(P, a, b) ==
  LET Step(acc, i) ==
        LET d == PureAdd(P, acc, acc)
        IN IF Bit(b, i) = 1 THEN PureAdd(P, d, a) ELSE d
  IN FoldLeft(Step, BZero, HighToLow)

LOCAL BOne == [i \in 1..NL |-> IF i = 1 THEN 1 ELSE 0]
LOCAL BTwo == [i \in 1..NL |-> IF i = 1 THEN 2 ELSE 0]

\* Fermat: a^(P-2); zero for zero
PureInv(P, a) ==
  LET e == PlainSub(P, BTwo)
      Step(acc, i) ==
        LET d == PureMul(P, acc, acc)
        IN IF Bit(e, i) = 1 THEN PureMul(P, d, a) ELSE d
  IN FoldLeft(Step, BOne, HighToLow)

\* a value below 2^(15*NL) reduced modulo P (P has at least 15*NL-1 bits, so
\* that at most three subtractions are needed)
PureReduce(P, a) == Norm(P, Norm(P, Norm(P, a)))

BAdd(P, a, b) == PureAdd(P, a, b)
BSub(P, a, b) == PureSub(P, a, b)
BMul(P, a, b) == PureMul(P, a, b)
BInv(P, a)    == PureInv(P, a)
BReduce(P, a) == PureReduce(P, a)

\* the element with the small integer value n < 2^30
BInt(n) == [i \in 1..NL |-> IF i = 1 THEN n % Base ELSE IF i = 2 THEN n \div Base ELSE 0]
=============================================================================
