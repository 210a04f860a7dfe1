------------------------------ MODULE MC_BigField ------------------------------
(* The Java override of BigField against the TLA+ definitions, on edge       *)
(* values and pseudo-random values of both published fields.                 *)
EXTENDS BigField, Integers, TLC
CONSTANT NSample, WithInv
P1 == <<1, 24576, 22095, 7951, 2324, 14126, 4638, 6644, 23848, 688, 23046, 557, 7045, 13317, 14412, 10041, 12388>>
P2 == <<1, 0, 17332, 18793, 4537, 10655, 16130, 9036, 34, 0, 0, 0, 0, 0, 0, 0, 16384>>
Gen(k) == [i \in 1..NL |-> IF i = NL THEN (k * 53 + 11) % 12000 ELSE ((k * k % 9973) * 7 + i * i * 3001 + k * i * 17) % Base]
Elem(P, k) == CASE k = 0 -> BZero
                [] k = 1 -> BInt(1)
                [] k = 2 -> [P EXCEPT ![1] = 0]      \* p - 1 (both moduli end in limb 1)
                [] k = 3 -> [BZero EXCEPT ![NL] = 8191]
                [] OTHER -> Gen(k)
VARIABLES P, a, b, r
Init == P \in {P1, P2} /\ a \in 0..NSample /\ b \in 0..NSample /\ r = 2
Ok(x, y) ==
  /\ BAdd(P, x, y) = PureAdd(P, x, y)
  /\ BSub(P, x, y) = PureSub(P, x, y)
  /\ BMul(P, x, y) = PureMul(P, x, y)
  /\ BReduce(P, x) = PureReduce(P, x)
  /\ BReduce(P, [i \in 1..NL |-> Base - 1]) = PureReduce(P, [i \in 1..NL |-> Base - 1])
  /\ WithInv => BInv(P, x) = PureInv(P, x)
Next == r = 2 /\ r' = (IF Ok(Elem(P, a), Elem(P, b)) THEN 1 ELSE 0) /\ UNCHANGED <<P, a, b>>
Inv == r # 0
===============================================================================
