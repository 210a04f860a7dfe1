------------------------------- MODULE MC_Sponge -------------------------------
(* The absorb/finish/squeeze machine refines the closed-form Digest: all     *)
(* messages up to MaxLen over a small field, several shapes and capacities.  *)
EXTENDS Sponge, TLC
CONSTANTS P, MaxLen, Caps
f == [big |-> FALSE, p |-> P]
\* width, rate, offset of the first rate word
Shapes == {<<3, 2, 0>>, <<3, 2, 1>>, <<2, 1, 0>>, <<2, 1, 1>>, <<4, 2, 2>>, <<5, 4, 1>>, <<4, 3, 0>>}
rnd(a, b) == (a * a * 31 + b * 17 + a * b * 7 + 3) % P
Par(sh) == [f |-> f, t |-> sh[1], rate |-> sh[2], rf |-> 2, rp |-> 1, alpha |-> 5,
            rc |-> [r \in 1..3 |-> [i \in 1..sh[1] |-> rnd(r, i)]],
            mds |-> [r \in 1..sh[1] |-> [i \in 1..sh[1] |-> rnd(r + 5, i + 9)]]]
VARIABLES sh, cap, msg, sp
vars == <<sh, cap, msg, sp>>
pr == Par(sh)
Init == sh \in Shapes /\ cap \in Caps /\ msg = <<>> /\ sp = SpNew(Par(sh), sh[3], cap)
Absorb(v) == Len(msg) < MaxLen /\ msg' = Append(msg, v) /\ sp' = SpAbsorb(pr, sp, v) /\ UNCHANGED <<sh, cap>>
Next == \E v \in 0..(P - 1) : Absorb(v)
\* pad the machine's buffer, finish, squeeze
PadFinish(s) == SpFinish(pr, [s EXCEPT !.buf = [i \in 1..pr.rate |-> IF i <= Len(s.buf) THEN s.buf[i] ELSE 0]])
Refines == msg # <<>> => /\ SpSqueeze(pr, PadFinish(sp)).v = Digest(pr, sh[3], cap, msg)
                         /\ MachineDigest(pr, sh[3], cap, msg) = Digest(pr, sh[3], cap, msg)
\* the buffer never overflows and is never empty once something was absorbed
BufferOK == Len(sp.buf) <= pr.rate /\ (msg # <<>> => Len(sp.buf) = ((Len(msg) - 1) % pr.rate) + 1)
\* squeezing rate words and then one more: the state words, then the next permutation's first
RECURSIVE Sq(_, _)
Sq(s, n) == IF n = 0 THEN <<>> ELSE LET q == SpSqueeze(pr, s) IN <<q.v>> \o Sq(q.s, n - 1)
SqueezeOK == msg # <<>> =>
  LET s == PadFinish(sp)
      s2 == Permute(pr, s.st)
  IN Sq(s, pr.rate + 1) = SubSeq(s.st, 1, pr.rate) \o <<s2[1]>>
================================================================================
