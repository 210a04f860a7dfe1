---------------------------- MODULE MC_Separation ----------------------------
(* All pairs of variable-length calls over a small alphabet: the symbolic    *)
(* terms coincide exactly when capacity and zero-padded words do.            *)
EXTENDS Separation, TLC
CONSTANTS Words, Caps, MaxLen, TT, RATE
pr == [f |-> [big |-> FALSE, p |-> 251], t |-> TT, rate |-> RATE, rf |-> 0, rp |-> 0, alpha |-> 5, rc |-> <<>>, mds |-> <<>>]
Msgs == UNION {[1..n -> Words] : n \in 1..MaxLen}
VARIABLES a, b
Init == a \in Caps \X Msgs /\ b = <<>>
Next == b = <<>> /\ b' \in Caps \X Msgs /\ UNCHANGED a
lay == TT - RATE
Dig(x) == SymDigest(pr, lay, x[1], x[2])
Default(n) == n * 16   \* any injective function of the length
Inv ==
  b # <<>> =>
    /\ (Dig(a) = Dig(b)) <=> (CanonVar(pr, a[1], a[2]) = CanonVar(pr, b[1], b[2]))
    \* with the default capacity nothing collides
    /\ (SymDigest(pr, lay, Default(Len(a[2])), a[2]) = SymDigest(pr, lay, Default(Len(b[2])), b[2])) => a[2] = b[2]
    \* an unchanged capacity hides zero words only up to the block boundary
    /\ (a[1] = b[1] /\ a[2] # b[2] /\ Dig(a) = Dig(b)) =>
          /\ (Len(a[2]) - 1) \div RATE = (Len(b[2]) - 1) \div RATE
          /\ \A i \in 1..Len(a[2]) : i > Len(b[2]) => a[2][i] = 0
===============================================================================
