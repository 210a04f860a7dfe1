-------------------------------- MODULE Sponge --------------------------------
(* The sponge built on Poseidon!Permute.                                     *)
(*                                                                           *)
(* Machine view: a sponge value is a record                                  *)
(*    [st |-> state words, lay |-> offset of the first rate word,            *)
(*     buf |-> words waiting to be added, out |-> words ready to be squeezed]*)
(* and SpNew / SpAbsorb / SpFinish / SpSqueeze are its steps (the same steps *)
(* as the implementation).  Declarative view: Digest, the value of the       *)
(* published construction.  MC_Sponge checks that the machine refines it.    *)
EXTENDS Poseidon

LOCAL Ceil(a, b) == (a + b - 1) \div b

CapPos(pr, lay) == ((pr.rate + lay) % pr.t) + 1

InitState(pr, lay, cap) ==
  [i \in 1..pr.t |-> IF i = CapPos(pr, lay) THEN cap ELSE FZero(pr.f)]

\* add a full block of rate words, then permute
Block(pr, st, lay, blk) ==
  Permute(pr, [i \in 1..pr.t |-> IF i > lay /\ i <= lay + pr.rate
                                  THEN FAdd(pr.f, st[i], blk[i - lay]) ELSE st[i]])

------------------------------------------------------------------------------
SpNew(pr, lay, cap) == [st |-> InitState(pr, lay, cap), lay |-> lay, buf |-> <<>>, out |-> <<>>]

SpAbsorb(pr, s, v) ==
  IF Len(s.buf) < pr.rate
  THEN [s EXCEPT !.buf = Append(@, v)]
  ELSE [s EXCEPT !.st = Block(pr, @, s.lay, s.buf), !.buf = <<v>>]

\* defined when the buffer is full
SpFinish(pr, s) ==
  LET st2 == Block(pr, s.st, s.lay, s.buf)
  IN [s EXCEPT !.st = st2, !.buf = <<>>, !.out = SubSeq(st2, 1, pr.rate)]

\* result: [s |-> sponge after, v |-> word]
SpSqueeze(pr, s) ==
  IF s.out # <<>> THEN [s |-> [s EXCEPT !.out = Tail(@)], v |-> Head(s.out)]
  ELSE LET st2 == Permute(pr, s.st)
       IN [s |-> [s EXCEPT !.st = st2, !.out = SubSeq(st2, 2, pr.rate)], v |-> st2[1]]

------------------------------------------------------------------------------
Padded(pr, msg) ==
  [i \in 1..(Ceil(Len(msg), pr.rate) * pr.rate) |-> IF i <= Len(msg) THEN msg[i] ELSE FZero(pr.f)]

Digest(pr, lay, cap, msg) ==
  LET n == Len(msg)
      word(i) == IF i <= n THEN msg[i] ELSE FZero(pr.f)
      blk(k) == [j \in 1..pr.rate |-> word((k - 1) * pr.rate + j)]
  IN FoldLeft(LAMBDA st, k : Block(pr, st, lay, blk(k)), InitState(pr, lay, cap),
              Range1(Ceil(Len(msg), pr.rate)))[1]

MachineDigest(pr, lay, cap, msg) ==
  LET a == FoldLeft(LAMBDA s, v : SpAbsorb(pr, s, v), SpNew(pr, lay, cap), Padded(pr, msg))
  IN SpSqueeze(pr, SpFinish(pr, a)).v

------------------------------------------------------------------------------
(* The named hash functions.  len * 2^64 is given by its base-2^15 digits    *)
(* (2^64 = 2^4 * (2^15)^4), len < 2^26.                                      *)
TwoTo64Times(n) == <<0, 0, 0, 0, (n % 2048) * 16, n \div 2048>>

(* A domain fixes the first capacity word, the words that follow the message *)
(* and the place of the first rate word.                                     *)
DomainRec(f, kind, len, t, rate) ==
  [cap |-> IF kind = "const" THEN FReduceDigits(f, TwoTo64Times(len)) ELSE FZero(f),
   pad |-> [i \in 1..(Ceil(len, rate) * rate - len) |-> FZero(f)],
   lay |-> IF kind = "const" THEN 0 ELSE t - rate]
Dom(pr, kind, msg) == DomainRec(pr.f, kind, Len(msg), pr.t, pr.rate)

PlainHash(pr, msg) == LET d == Dom(pr, "const", msg) IN Digest(pr, d.lay, d.cap, msg)
\* the domain value or the declared capacity is added to the domain's own capacity word
Iden3Hash(pr, msg, dom) == LET d == Dom(pr, "iden3", msg) IN Digest(pr, d.lay, FAdd(pr.f, d.cap, dom), msg)
VarHash(pr, msg, capDigits) ==
  LET d == Dom(pr, "var", msg) IN Digest(pr, d.lay, FAdd(pr.f, d.cap, FReduceDigits(pr.f, capDigits)), msg)
\* default capacity of a message: len * factor, factor = 2^64 (current) or 1 (legacy)
DefaultCap(legacy, n) == IF legacy THEN <<n % 32768, n \div 32768>> ELSE TwoTo64Times(n)
===============================================================================
