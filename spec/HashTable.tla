------------------------------- MODULE HashTable -------------------------------
(* The hash table the circuit exposes.                                       *)
(*                                                                           *)
(* A table is a sequence of rows; row [w, c, last, d]: two words, the        *)
(* remaining-length flag (as base-2^15 digits of flag * 2^64), whether the   *)
(* message ends here, the domain.  Exposed columns: digest, word 1, word 2,  *)
(* flag, domain, head mark.                                                  *)
(*                                                                           *)
(* Expose is the declarative view (digest of each message by the sponge of   *)
(* Sponge.tla); RowStep is the machine that reads exposed rows one by one    *)
(* and accepts exactly the tables all of whose messages carry their true     *)
(* digest.  MC_HashTable checks the two against each other.                  *)
EXTENDS Sponge

FlagOf(f, row) == FReduceDigits(f, row.c)
BlankRow(f) == [w |-> <<FZero(f), FZero(f)>>, c |-> <<0>>, last |-> TRUE, d |-> FZero(f)]

\* rows of the table when n rows are reserved
Reserved(f, rows, n) == [i \in 1..n |-> IF i <= Len(rows) THEN rows[i] ELSE BlankRow(f)]
IsHead(T, i) == i = 1 \/ T[i - 1].last
HeadOf(T, i) == CHOOSE j \in 1..i : IsHead(T, j) /\ \A k \in (j + 1)..i : ~IsHead(T, k)
\* last row of the message of row i (or of the table)
EndOf(T, i) == IF \E j \in i..Len(T) : T[j].last
               THEN CHOOSE j \in i..Len(T) : T[j].last /\ \A k \in i..(j - 1) : ~T[k].last
               ELSE Len(T)

RECURSIVE Words(_, _, _)
Words(T, i, j) == IF i > j THEN <<>> ELSE T[i].w \o Words(T, i + 1, j)

\* digest state after row j of the message starting at row i
DigestOf(pr, T, i, j) ==
  Digest(pr, pr.t - pr.rate, FAdd(pr.f, FlagOf(pr.f, T[i]), T[i].d), Words(T, i, j))

Expose(pr, rows, n) ==
  LET f == pr.f
      T == Reserved(f, rows, n)
      dig == [i \in 1..n |-> IF IsHead(T, i) THEN DigestOf(pr, T, i, EndOf(T, i)) ELSE FZero(f)]
  IN [i \in 1..n |-> <<dig[HeadOf(T, i)], T[i].w[1], T[i].w[2], FlagOf(f, T[i]), T[i].d,
                       IF IsHead(T, i) THEN FOne(f) ELSE FZero(f)>>]

-------------------------------------------------------------------------------
(* Reading exposed rows.  m = [open, ctrl, h, st, single]: a message is      *)
(* being read, its last flag, its digest column, the sponge state, and       *)
(* whether its flag was zero.  unit is the factor of the flag in the field,  *)
(* step the step of the table.  bad stays TRUE once set.                     *)
MonInit(pr) == [open |-> FALSE, ctrl |-> FZero(pr.f), h |-> FZero(pr.f),
                st |-> [i \in 1..pr.t |-> FZero(pr.f)], bad |-> FALSE]
\* flags with which a message may end
EndFlags(pr, unit, step) == {FMul(pr.f, FInt(pr.f, i), unit) : i \in 0..step}

\* the open message must be complete and its digest true
Closed(pr, unit, step, m) ==
  m.open => (m.ctrl \in EndFlags(pr, unit, step) /\ m.h = m.st[1])

\* P is the permutation
AbsorbRow(P(_), pr, st, w, add) ==
  P(<<FAdd(pr.f, st[1], add), FAdd(pr.f, st[2], w[1]), FAdd(pr.f, st[3], w[2])>>)
Blank(pr) == [i \in 1..pr.t |-> FZero(pr.f)]

\* x = <<digest, word 1, word 2, flag, domain, head>>; final: the reserved last row
RowStepBy(P(_), pr, unit, step, m, x, final) ==
  LET f == pr.f
      w == <<x[2], x[3]>>
      first == x[6] = FOne(f)
      okHead == first \/ x[6] = FZero(f)
      okFirst == Closed(pr, unit, step, m)
      okNext == /\ m.open
                /\ m.ctrl # FZero(f) /\ x[4] # FZero(f)
                /\ x[4] = FSub(f, m.ctrl, FMul(f, FInt(f, step), unit))
                /\ x[1] = m.h
      okFinal == final => (w = <<FZero(f), FZero(f)>> /\ x[4] = FZero(f))
  IN [open |-> TRUE, ctrl |-> x[4], h |-> x[1],
      st |-> IF first THEN AbsorbRow(P, pr, Blank(pr), w, FAdd(f, x[4], x[5])) ELSE AbsorbRow(P, pr, m.st, w, x[5]),
      bad |-> m.bad \/ ~okHead \/ ~okFinal \/ (IF first THEN ~okFirst ELSE ~okNext)]

RowStep(pr, unit, step, m, x, final) == RowStepBy(LAMBDA s : Permute(pr, s), pr, unit, step, m, x, final)

\* reading a whole table; the digest of the reserved last row is not claimed
ReadTable(pr, unit, step, X) ==
  FoldLeft(LAMBDA m, i : RowStep(pr, unit, step, m, X[i], i = Len(X)), MonInit(pr), Range1(Len(X)))
===============================================================================
