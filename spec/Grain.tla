-------------------------------- MODULE Grain --------------------------------
(* The reference parameter generation of Poseidon: the Grain LFSR in         *)
(* self-shrinking mode, rejection sampling of the round constants, Cauchy    *)
(* matrix from pairwise distinct samples taken without rejection.            *)
EXTENDS Poseidon

RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)

RECURSIVE BitLen(_)
BitLen(n) == IF n = 0 THEN 0 ELSE 1 + BitLen(n \div 2)

\* number of bits of the modulus
NumBits(f) ==
  IF f.big
  THEN LET top == CHOOSE i \in 1..NL : f.p[i] # 0 /\ \A j \in (i + 1)..NL : f.p[j] = 0
       IN (top - 1) * LB + BitLen(f.p[top])
  ELSE BitLen(f.p)

\* v as n bits, most significant first
LOCAL Bits(v, n) == [i \in 1..n |-> (v \div Pow2(n - i)) % 2]

LFSRStep(b) ==
  Append(Tail(b), (b[63] + b[52] + b[39] + b[24] + b[14] + b[1]) % 2)

LFSRInit(f, t, rf, rp) ==
  LET seed == Bits(1, 2) \o Bits(0, 4) \o Bits(NumBits(f), 12) \o Bits(t, 12)
                \o Bits(rf, 10) \o Bits(rp, 10) \o [i \in 1..30 |-> 1]
  IN FoldLeft(LAMBDA b, i : LFSRStep(b), seed, Range1(160))

\* one output bit of the self-shrinking generator: [b, v]
RECURSIVE ShrunkBit(_)
ShrunkBit(b) ==
  LET b1 == LFSRStep(b)
      b2 == LFSRStep(b1)
  IN IF b1[80] = 1 THEN [b |-> b2, v |-> b2[80]] ELSE ShrunkBit(b2)

\* n output bits as base-2^15 digits, first bit most significant: [b, d]
TakeNumber(b, n) ==
  FoldLeft(LAMBDA acc, i :
             LET r == ShrunkBit(acc.b)
                 pos == n - i
                 k == (pos \div 15) + 1
             IN [b |-> r.b, d |-> [acc.d EXCEPT ![k] = @ + r.v * Pow2(pos % 15)]],
           [b |-> b, d |-> [k \in 1..(((n - 1) \div 15) + 1) |-> 0]], Range1(n))

LOCAL Wide(d) == [i \in 1..NL |-> IF i <= Len(d) THEN d[i] ELSE 0]
LOCAL Small(d) == d[1] + (IF Len(d) > 1 THEN d[2] * 32768 ELSE 0)

\* next element with rejection: [b, v]
RECURSIVE NextElem(_, _)
NextElem(f, b) ==
  LET r == TakeNumber(b, NumBits(f))
  IN IF f.big
     THEN IF BLess(Wide(r.d), f.p) THEN [b |-> r.b, v |-> Wide(r.d)] ELSE NextElem(f, r.b)
     ELSE IF Small(r.d) < f.p THEN [b |-> r.b, v |-> Small(r.d)] ELSE NextElem(f, r.b)

\* next element without rejection (reduced modulo p)
NextElemMod(f, b) ==
  LET r == TakeNumber(b, NumBits(f)) IN [b |-> r.b, v |-> FReduceDigits(f, r.d)]

\* n elements: [b, s]
LOCAL Elems(f, b, n) ==
  FoldLeft(LAMBDA acc, i : LET r == NextElem(f, acc.b) IN [b |-> r.b, s |-> Append(acc.s, r.v)],
           [b |-> b, s |-> <<>>], Range1(n))
LOCAL ElemsMod(f, b, n) ==
  FoldLeft(LAMBDA acc, i : LET r == NextElemMod(f, acc.b) IN [b |-> r.b, s |-> Append(acc.s, r.v)],
           [b |-> b, s |-> <<>>], Range1(n))

LOCAL Distinct(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]

\* 2t pairwise distinct samples, after skipping `skip` earlier such tuples
RECURSIVE Samples(_, _, _, _)
Samples(f, b, t, skip) ==
  LET r == ElemsMod(f, b, 2 * t)
  IN IF ~Distinct(r.s) THEN Samples(f, r.b, t, skip)
     ELSE IF skip > 0 THEN Samples(f, r.b, t, skip - 1)
     ELSE r.s

\* [ok, rc, mds]; ok = FALSE when the selected tuple gives no Cauchy matrix
GenParams(f, t, rf, rp, skip) ==
  LET e == Elems(f, LFSRInit(f, t, rf, rp), t * (rf + rp))
      s == Samples(f, e.b, t, skip)
      sum(i, j) == FAdd(f, s[i], s[t + j])
  IN [ok |-> \A i, j \in 1..t : sum(i, j) # FZero(f),
      rc |-> [r \in 1..(rf + rp) |-> [i \in 1..t |-> e.s[(r - 1) * t + i]]],
      mds |-> [i \in 1..t |-> [j \in 1..t |-> FInv(f, sum(i, j))]]]
===============================================================================
