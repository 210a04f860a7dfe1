------------------------------ MODULE Tr_Circuit ------------------------------
(* Circuits recorded from the real code, with the witness the code assigned. *)
(* A circuit is walked row by row; a row is accepted iff every constraint    *)
(* polynomial vanishes there and every lookup finds its tuple.  After the    *)
(* last row the equality constraints are checked, and finally the cells the  *)
(* circuit exposes are compared with what the specification says they hold.  *)
EXTENDS CircuitEval, HashTable, Published, FiniteSets

Circs == ndJsonDeserialize(IOEnv.TRACE_DIR \o "/trace.ndjson")
LocalPrs == JsonDeserialize(IOEnv.TRACE_DIR \o "/params.json")
Pub == PublishedData
Prs(i) == IF i > 1000 THEN Pub[i - 1000] ELSE LocalPrs[i]
N == Len(Circs)

VARIABLES k, r, bad
vars == <<k, r, bad>>

Adv(c, col, row) == c.vals[c.adv[col + 1][row + 1]]
AnyCell(c, kind, col, row) == IF kind = 0 THEN Adv(c, col, row) ELSE c.vals[c.fixed[col + 1][row + 1]]

TabOf == [i \in 1..N |-> IF Circs[i].refused # "" THEN <<>> ELSE
           [l \in 1..Len(Circs[i].lks) |->
             {[j \in 1..Len(Circs[i].lks[l].tab) |-> PolyVal(Circs[i], Circs[i].lks[l].tab[j], row, <<>>, 0)]
               : row \in 0..(Circs[i].usable - 1)}]]

RowOK(c, i, row) ==
  /\ \A q \in 1..Len(c.polys) : PolyVal(c, c.polys[q].e, row, <<>>, 0) = FZero(c.f)
  /\ \A l \in 1..Len(c.lks) :
       [j \in 1..Len(c.lks[l].in) |-> PolyVal(c, c.lks[l].in[j], row, <<>>, 0)] \in TabOf[i][l]
CopiesOK(c) ==
  \A q \in 1..Len(c.copies) :
    LET x == c.copies[q] IN AnyCell(c, x[1], x[2], x[3]) = AnyCell(c, x[4], x[5], x[6])

(* ---- what the exposed cells must hold ------------------------------------ *)
Cells(c, s) == [j \in 1..Len(s) |-> Adv(c, s[j][1], s[j][2])]

PermOK(c) ==
  LET p == c.prop
      pr == Prs(p.pr)
      in(i) == IF p.chain /\ i > 1 THEN Cells(c, p.outs[i - 1]) ELSE Cells(c, p.ins[i])
  IN /\ \A i \in 1..Len(p.ins) : Cells(c, p.ins[i]) = p.given[i]
     /\ \A i \in 1..p.n : Cells(c, p.outs[i]) = Permute(pr, in(i))

\* the words squeezed one after another
RECURSIVE Squeezes(_, _, _)
Squeezes(pr, s, n) ==
  IF n = 0 THEN <<>> ELSE LET q == SpSqueeze(pr, s) IN <<q.v>> \o Squeezes(pr, q.s, n - 1)
SpongeOut(pr, L, hash, words, n) ==
  LET cap == FReduceDigits(pr.f, TwoTo64Times(L))
      a == FoldLeft(LAMBDA s, v : SpAbsorb(pr, s, v), SpNew(pr, 0, cap), IF hash THEN Padded(pr, words) ELSE words)
  IN Squeezes(pr, SpFinish(pr, a), n)
SpongeOK(c) ==
  LET p == c.prop
      pr == Prs(p.pr)
      words == [i \in 1..Len(p.words) |-> p.words[i].v]
  IN /\ \A i \in 1..Len(p.words) : p.words[i].m => Adv(c, 0, p.words[i].r) = p.words[i].v
     /\ Cells(c, p.outs) = SpongeOut(pr, p.L, p.hash, words, Len(p.outs))
     /\ p.hash => Adv(c, p.outs[1][1], p.outs[1][2]) = PlainHash(pr, words)

TableOK(c) ==
  LET p == c.prop
      pr == Prs(p.pr)
      en == {row \in 0..(c.n - 1) : c.vals[c.fixed[p.qcol + 1][row + 1]] = FOne(c.f)}
      top == CHOOSE x \in en : \A y \in en : x <= y
      X == [i \in 1..p.calcs |-> [j \in 1..6 |-> Adv(c, p.cols[j], top + i - 1)]]
  IN /\ p.cols = <<0, 1, 2, 3, 4, 5>> /\ p.commit = p.cols
     /\ Cardinality(en) = p.calcs /\ en = top..(top + p.calcs - 1) /\ top >= 1
     /\ \A j \in 1..6 : Adv(c, p.cols[j], top - 1) = FZero(c.f)
     /\ X = Expose(pr, p.rows, p.calcs)

PropOK(c) == CASE c.prop.k = "perm" -> PermOK(c)
               [] c.prop.k = "sponge" -> SpongeOK(c)
               [] c.prop.k = "table" -> TableOK(c)

Init == k \in 1..N /\ r = 0 /\ bad = FALSE
RowsOf(i) == IF Circs[i].refused # "" THEN 0 ELSE Circs[i].usable + 1
Next ==
  /\ ~bad /\ r <= RowsOf(k)
  /\ bad' = LET c == Circs[k]
            IN IF c.refused # "" THEN TRUE
               ELSE IF r < c.usable THEN ~RowOK(c, k, r)
               ELSE IF r = c.usable THEN ~CopiesOK(c)
               ELSE ~PropOK(c)
  /\ r' = r + 1 /\ UNCHANGED k

Accepted == ~bad
Alias == [rejected |-> IF bad THEN k ELSE 0, row |-> r - 1,
          polys |-> IF bad /\ Circs[k].refused = "" /\ r - 1 < Circs[k].usable
                    THEN {Circs[k].polys[q].g : q \in {x \in 1..Len(Circs[k].polys) :
                            PolyVal(Circs[k], Circs[k].polys[x].e, r - 1, <<>>, 0) # FZero(Circs[k].f)}}
                    ELSE {}]
\* every row of every circuit was visited
Consumed == TLCGet("stats").distinct = FoldLeft(LAMBDA s, i : s + RowsOf(i) + 2, 0, Range1(N))
================================================================================
