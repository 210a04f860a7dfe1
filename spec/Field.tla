-------------------------------- MODULE Field --------------------------------
(* A prime field.  f = [big |-> FALSE, p |-> n] uses native integers         *)
(* (n < 46341, so that products stay below 2^31), f = [big |-> TRUE,         *)
(* p |-> limbs] the limb sequences of BigField.                              *)
EXTENDS Integers, Sequences, SequencesExt, BigField


FAdd(f, a, b) == IF f.big THEN BAdd(f.p, a, b) ELSE (a + b) % f.p
FSub(f, a, b) == IF f.big THEN BSub(f.p, a, b) ELSE (a - b) % f.p
FMul(f, a, b) == IF f.big THEN BMul(f.p, a, b) ELSE (a * b) % f.p

FInt(f, n) == IF f.big THEN BInt(n) ELSE n % f.p
FZero(f) == IF f.big THEN BZero ELSE 0
FOne(f) == FInt(f, 1)
FNeg(f, a) == FSub(f, FZero(f), a)

\* canonical representation
FIn(f, a) == IF f.big THEN Len(a) = NL /\ (\A i \in 1..NL : a[i] \in 0..(Base - 1)) /\ BLess(a, f.p)
             ELSE a \in 0..(f.p - 1)

RECURSIVE FPow(_, _, _)
FPow(f, a, e) ==
  IF e = 0 THEN FOne(f)
  ELSE LET h == FPow(f, a, e \div 2)
           s == FMul(f, h, h)
       IN IF e % 2 = 1 THEN FMul(f, s, a) ELSE s

\* inverse (zero for zero)
FInv(f, a) == IF f.big THEN BInv(f.p, a) ELSE FPow(f, a, f.p - 2)

FSum(f, s) == FoldLeft(LAMBDA acc, x : FAdd(f, acc, x), FZero(f), s)
FDot(f, u, v) == FoldLeft(LAMBDA acc, i : FAdd(f, acc, FMul(f, u[i], v[i])), FZero(f),
                          [i \in 1..Len(u) |-> i])

\* a number given by base-2^15 digits, least significant first, below
\* 2^(15*NL), as a field element; for a small field any number of digits
FReduceDigits(f, d) ==
  IF f.big THEN BReduce(f.p, [i \in 1..NL |-> IF i <= Len(d) THEN d[i] ELSE 0])
  ELSE FoldLeft(LAMBDA acc, i : (((acc * (32768 % f.p)) % f.p) + (d[Len(d) + 1 - i] % f.p)) % f.p, 0,
                [i \in 1..Len(d) |-> i])
==============================================================================
