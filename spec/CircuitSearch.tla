----------------------------- MODULE CircuitSearch -----------------------------
(* The adversary of a recorded circuit.  The witness cells are left open and *)
(* a prover writes values into them, cell by cell, in the order of c.plan    *)
(* (bin/plan.py); a constraint is evaluated as soon as all its cells are     *)
(* written, and cells that no later step reads are forgotten.  A state is a  *)
(* partial witness that satisfies every constraint seen so far, together     *)
(* with what the specification says about the exposed cells seen so far:     *)
(* bad is set once they claim something false.  Genuine: no partial witness  *)
(* that is bad survives to the end of the plan, i.e. no assignment satisfies *)
(* the circuit and exposes a false claim.                                    *)
(*                                                                           *)
(* A local plan leaves open only part of the witness: steps with fw keep the *)
(* recorded value hv except in the neighbourhoods fw.                        *)
(*                                                                           *)
(* The plan is untrusted: PlanComplete checks that every constraint of every *)
(* usable row occurs in it, TieOK that cells are identified only as the      *)
(* copy constraints say, and PolyVal refuses to read an unwritten cell.      *)
EXTENDS CircuitEval, HashTable, Published, FiniteSets

Circs == ndJsonDeserialize(IOEnv.TRACE_DIR \o "/trace.ndjson")
LocalPrs == JsonDeserialize(IOEnv.TRACE_DIR \o "/params.json")
N == Len(Circs)

VARIABLES k, g, w
vars == <<k, g, w>>
\* w = [win |-> neighbourhood, a |-> slots, m |-> monitor of the exposed rows, bad |-> claim]

(* ---- the permutation, tabulated for the tables --------------------------- *)
Code(p, s) == 1 + s[1] + p * s[2] + p * p * s[3]
PermTab == [i \in 1..Len(LocalPrs) |->
  LET pr == LocalPrs[i]
      p == pr.f.p
  IN IF pr.t # 3 \/ pr.f.big \/ (\A j \in 1..N : Circs[j].prop.k # "table") THEN <<>>
     ELSE IF p > 20 THEN <<>>
     ELSE [n \in 1..(p * p * p) |-> Permute(pr, <<(n - 1) % p, ((n - 1) \div p) % p, (n - 1) \div (p * p)>>)]]
Perm(i, s) == IF PermTab[i] # <<>> THEN PermTab[i][Code(LocalPrs[i].f.p, s)] ELSE Permute(LocalPrs[i], s)

TabOf == [i \in 1..N |->
           [l \in 1..Len(Circs[i].lks) |->
             {[j \in 1..Len(Circs[i].lks[l].tab) |-> PolyVal(Circs[i], Circs[i].lks[l].tab[j], row, <<>>, 0)]
               : row \in 0..(Circs[i].usable - 1)}]]

(* ---- static checks of the plan ------------------------------------------- *)
Steps(c) == FoldLeft(LAMBDA acc, s : acc \o s, <<>>, c.plan)
PlanComplete(c) ==
  LET st == Steps(c)
      con == {<<st[i].e, st[i].r>> : i \in {j \in 1..Len(st) : st[j].k = "c"}}
      lks == {<<st[i].l, st[i].r>> : i \in {j \in 1..Len(st) : st[j].k = "l"}}
  IN /\ \A row \in 0..(c.usable - 1) : \A q \in 1..Len(c.polys) :
          Vanishes(c, c.polys[q].e, row) \/ <<c.polys[q].e, row>> \in con
     /\ \A row \in 0..(c.usable - 1) : \A l \in 1..Len(c.lks) : <<l, row>> \in lks
     /\ \A i \in 1..Len(st) : st[i].t = i
\* classes that share a slot do not live at the same time
SlotsOK(c) ==
  \A x, y \in 1..Len(c.slot) : x < y /\ c.slot[x] = c.slot[y] =>
    c.death[x] < c.birth[y] \/ c.death[y] < c.birth[x]
(* Cells of one class are connected by copy constraints: the connected       *)
(* components of the recorded copies, computed here, agree with c.cls.       *)
Tie(c) ==
  LET Cell(x) == <<x[1], x[2], x[3]>>
      Other(x) == <<x[4], x[5], x[6]>>
      nodes == {Cell(c.copies[i]) : i \in 1..Len(c.copies)} \cup {Other(c.copies[i]) : i \in 1..Len(c.copies)}
      Join(rep, x) == LET s == rep[Cell(x)]
                          t == rep[Other(x)]
                      IN IF s = t THEN rep ELSE [y \in nodes |-> IF rep[y] = s THEN t ELSE rep[y]]
  IN FoldLeft(Join, [y \in nodes |-> y], c.copies)
TieOK(c) ==
  LET rep == Tie(c)
      nodes == DOMAIN rep
      adv == {y \in nodes : y[1] = 0}
      Cls(y) == c.cls[y[2] + 1][y[3] + 1]
      all == {<<0, x, y>> : x \in 0..(Len(c.cls) - 1), y \in 0..(c.n - 1)}
  IN \* the same class only within a component
     /\ \A y, z \in adv : (y # z /\ Cls(y) > 0 /\ Cls(y) = Cls(z)) => rep[y] = rep[z]
     /\ \A y, z \in adv : rep[y] = rep[z] => Cls(y) = Cls(z)
     /\ Cardinality({y \in all \ adv : Cls(y) > 0}) = Cardinality({Cls(y) : y \in {x \in all \ adv : Cls(x) > 0}})
     /\ \A y \in all \ adv : Cls(y) >= 0
     \* a cell has a fixed value only where a copy ties it to one
     /\ \A y \in adv : Cls(y) < 0 => \E z \in nodes : z[1] = 1 /\ rep[z] = rep[y] /\ c.fixed[z[2] + 1][z[3] + 1] = 0 - Cls(y)
     /\ \A y, z \in nodes : y[1] = 1 /\ z[1] = 1 /\ rep[y] = rep[z] =>
          c.vals[c.fixed[y[2] + 1][y[3] + 1]] = c.vals[c.fixed[z[2] + 1][z[3] + 1]]

(* ---- the steps of a plan -------------------------------------------------- *)
At(c, x, s, t) == CellVal(c, x[1], x[2], s.a, t)
Row3(c, cols, row, s, t) == [j \in 1..Len(cols) |-> CellVal(c, cols[j], row, s.a, t)]
Cells(c, xs, s, t) == [j \in 1..Len(xs) |-> At(c, xs[j], s, t)]
Unit(c) == FReduceDigits(c.f, DefaultCap(c.prop.legacy, 1))

\* one call of the ideal permutation: its output cells are determined
Oracle(c, st, s) ==
  LET o == Perm(c.prop.pr, Row3(c, st.in, st.r, s, st.t))
      old == {j \in 1..3 : ~st.new[j]}
      Slot(j) == c.slot[c.cls[st.out[j] + 1][st.r + 1]]
  IN IF \A j \in old : CellVal(c, st.out[j], st.r, s.a, st.t) = o[j]
     THEN {[s EXCEPT !.a = [x \in 1..Len(s.a) |->
              IF \E j \in 1..3 : st.new[j] /\ Slot(j) = x
              THEN o[CHOOSE j \in 1..3 : st.new[j] /\ Slot(j) = x] ELSE s.a[x]]]}
     ELSE {}
\* two new output cells in one class must agree
OracleOK(c, st, s) == \A j \in 1..3 : CellVal(c, st.out[j], st.r, s.a, st.t) = Perm(c.prop.pr, Row3(c, st.in, st.r, s, st.t))[j]

Monitor(c, st, s) ==
  LET pr == LocalPrs[c.prop.pr]
      x == Row3(c, c.prop.cols, st.r, s, st.t)
      m == RowStepBy(LAMBDA v : Perm(c.prop.pr, v), pr, Unit(c), c.prop.step, s.m, x, st.final)
  IN [s EXCEPT !.m = IF st.final THEN MonInit(pr) ELSE [m EXCEPT !.bad = FALSE], !.bad = @ \/ m.bad]

Squeezed(pr, L, hash, words, n) ==
  LET cap == FReduceDigits(pr.f, TwoTo64Times(L))
      a == FoldLeft(LAMBDA x, v : SpAbsorb(pr, x, v), SpNew(pr, 0, cap), IF hash THEN Padded(pr, words) ELSE words)
      Sq(acc, i) == LET q == SpSqueeze(pr, acc.s) IN [s |-> q.s, o |-> Append(acc.o, q.v)]
  IN FoldLeft(Sq, [s |-> SpFinish(pr, a), o |-> <<>>], Range1(n)).o

\* what may be written into the cell of a step
Values(c, st, win) ==
  IF "fw" \in DOMAIN st /\ \A i \in 1..Len(st.fw) : st.fw[i] # win THEN {st.hv}
  ELSE IF st.cand = <<>> THEN 0..(c.f.p - 1) ELSE {st.cand[i] : i \in 1..Len(st.cand)}

Do(c, st, S) ==
  CASE st.k = "p" -> LET cand == Values(c, st, w.win)
                     IN {[s EXCEPT !.a[st.s] = v] : s \in S, v \in cand}
    [] st.k = "c" -> {s \in S : PolyVal(c, st.e, st.r, s.a, st.t) = FZero(c.f)}
    [] st.k = "l" -> {s \in S : [j \in 1..Len(c.lks[st.l].in) |-> PolyVal(c, c.lks[st.l].in[j], st.r, s.a, st.t)]
                                  \in TabOf[k][st.l]}
    [] st.k = "k" -> {[s EXCEPT !.a = [x \in 1..Len(s.a) |-> IF \E i \in 1..Len(st.s) : st.s[i] = x THEN 0 ELSE s.a[x]]] : s \in S}
    [] st.k = "o" -> {s \in UNION {Oracle(c, st, s) : s \in S} : OracleOK(c, st, s)}
    [] st.k = "m" -> {Monitor(c, st, s) : s \in S}
    [] st.k = "q" -> {[s EXCEPT !.bad = @ \/ Cells(c, st.out, s, st.t) # Perm(c.prop.pr, Cells(c, st.in, s, st.t))] : s \in S}
    [] st.k = "z" -> {[s EXCEPT !.bad = @ \/ Cells(c, c.prop.outs, s, st.t) #
                        Squeezed(LocalPrs[c.prop.pr], c.prop.L, c.prop.hash,
                                 [i \in 1..Len(c.prop.words) |->
                                   IF c.prop.words[i].m THEN CellVal(c, 0, c.prop.words[i].r, s.a, st.t) ELSE c.prop.words[i].v],
                                 Len(c.prop.outs))] : s \in S}

Start(c, x) == [win |-> x, a |-> [i \in 1..c.slots |-> 0],
                m |-> IF c.prop.k = "table" THEN MonInit(LocalPrs[c.prop.pr]) ELSE <<>>,
                bad |-> FALSE]

Init == k \in 1..N /\ g = 0 /\ \E x \in 0..Circs[k].wins : w = Start(Circs[k], x)
\* the first step checks the plan itself
Next ==
  \/ /\ g = 0
     /\ Assert(PlanComplete(Circs[k]), <<"plan incomplete", k>>)
     /\ Assert(SlotsOK(Circs[k]), <<"slots clash", k>>)
     /\ Assert(TieOK(Circs[k]), <<"cells wrongly tied", k>>)
     /\ g' = 1 /\ UNCHANGED <<k, w>>
  \/ /\ g >= 1 /\ g <= Len(Circs[k].plan)
     /\ \E s \in FoldLeft(LAMBDA S, st : Do(Circs[k], st, S), {w}, Circs[k].plan[g]) : w' = s
     /\ g' = g + 1 /\ UNCHANGED k

AtEnd == g = Len(Circs[k].plan) + 1
Genuine == AtEnd => ~w.bad
\* circuits that some witness satisfies are marked; each of them must be
ASSUME \A i \in 1..N : TLCSet(i, 0)
Mark == AtEnd => TLCSet(k, 1)
Inhabited ==
  LET all == TLCGet("all")
      Reached(i) == i \in DOMAIN all /\ \E j \in DOMAIN all[i] : all[i][j] = 1
  IN \A i \in 1..N : Reached(i) \/ PrintT(<<"no satisfying witness", i, all>>) = FALSE
Alias == [rejected |-> IF AtEnd /\ w.bad THEN k ELSE 0, at |-> g, w |-> w]
================================================================================
