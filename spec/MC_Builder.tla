------------------------------- MODULE MC_Builder -------------------------------
(* The table kept as four vectors that are brought to length only when       *)
(* needed, as the code keeps it, against the row-wise table of Builder.tla,  *)
(* for every sequence of calls over an alphabet of calls.  The histories     *)
(* printed here are replayed into the real builder (Tr_Builder).             *)
(*                                                                           *)
(* PadControls = FALSE is the design that forgets to bring the vector of     *)
(* remaining lengths to length before a stream is appended.                  *)
EXTENDS Builder, TLC, FiniteSets
CONSTANTS Depth, PadControls, Emitting

St(n, start, last) == [op |-> "stream", n |-> n, start |-> start, last |-> last]
Fx(n, ck) == [op |-> "fixed", n |-> n, ck |-> ck]
Cn(n, ck) == [op |-> "const", n |-> n, ck |-> ck]
\* the same order as in the driver
Alphabet == << Fx(1, {}), Fx(2, {1}), Fx(0, {}), St(1, 1, FALSE), St(2, 4, TRUE), St(3, 5, FALSE),
               St(2, 2, TRUE), St(1, 9, TRUE), Cn(1, {}), Cn(1, {1}), St(0, 3, FALSE), Cn(2, {}) >>
Step == 2

VARIABLES hist, T, V, ok
vars == <<hist, T, V, ok>>

\* the i-th call of a history with concrete rows: every word is fresh
Call(a, i) ==
  [op |-> a.op, start |-> NSmall(IF a.op = "stream" THEN a.start ELSE 0), step |-> NSmall(Step),
   last |-> IF a.op = "stream" /\ a.last THEN <<<<i, "last">>>> ELSE <<>>,
   rows |-> [j \in 1..a.n |-> [w |-> <<i, j>>, d |-> IF a.op = "fixed" THEN <<<<i, j, "d">>>> ELSE <<>>,
                               ck |-> IF a.op # "stream" /\ j \in a.ck THEN <<<<i, j, "ck">>>> ELSE <<>>]]]

Resize(s, n, x) == [i \in 1..n |-> IF i <= Len(s) THEN s[i] ELSE x]
Empty == [inp |-> <<>>, ctl |-> <<>>, dom |-> <<>>, chk |-> <<>>]
WithRows(v, call) == v.inp \o [i \in 1..Len(call.rows) |-> call.rows[i].w]
Zeros(n) == [i \in 1..n |-> NZero]

FixedV(v, call) ==
  LET n == Len(v.inp) IN
  [inp |-> WithRows(v, call), ctl |-> Resize(v.ctl, n, NZero) \o Zeros(Len(call.rows)),
   dom |-> Resize(v.dom, n, <<>>) \o [i \in 1..Len(call.rows) |-> call.rows[i].d],
   chk |-> Resize(v.chk, n, <<>>) \o [i \in 1..Len(call.rows) |-> call.rows[i].ck]]
\* constant inputs leave the other vectors short; those with digests extend two of them
ConstV(v, call) ==
  IF \A i \in 1..Len(call.rows) : call.rows[i].ck = <<>> THEN [v EXCEPT !.inp = WithRows(v, call)]
  ELSE [v EXCEPT !.inp = WithRows(v, call), !.ctl = @ \o Zeros(Len(call.rows)),
                 !.chk = Resize(@, Len(v.inp), <<>>) \o [i \in 1..Len(call.rows) |-> call.rows[i].ck]]
\* <<>> when the builder refuses
StreamV(v, call) ==
  LET c == LengthsOf(call)
      ctl == (IF PadControls THEN Resize(v.ctl, Len(v.inp), NZero) ELSE v.ctl) \o c
      n == Len(v.inp) + Len(call.rows)
  IN IF Len(call.rows) = 0 \/ Len(c) # Len(call.rows) \/ Len(ctl) # n THEN <<>>
     ELSE <<[inp |-> WithRows(v, call), ctl |-> ctl, dom |-> Resize(v.dom, n, <<>>),
             chk |-> Append(Resize(v.chk, n - 1, <<>>), call.last)]>>

Apply(v, call) == CASE call.op = "fixed" -> <<FixedV(v, call)>>
                    [] call.op = "const" -> <<ConstV(v, call)>>
                    [] call.op = "stream" -> StreamV(v, call)

\* what the circuit reads out of the vectors at row i
At(s, i, x) == IF i <= Len(s) THEN s[i] ELSE x
View(v) == [i \in 1..Len(v.inp) |-> [w |-> v.inp[i], c |-> At(v.ctl, i, NZero), d |-> At(v.dom, i, <<>>), ck |-> At(v.chk, i, <<>>)]]

Init == hist = <<>> /\ T = <<>> /\ V = Empty /\ ok = TRUE
Next ==
  /\ Len(hist) < Depth
  /\ \E a \in 1..Len(Alphabet) :
       LET call == Call(Alphabet[a], Len(hist) + 1)
           v == Apply(V, call)
       IN /\ hist' = Append(hist, a)
          /\ T' = Add(T, call)
          /\ V' = IF v = <<>> THEN V ELSE v[1]
          /\ ok' = ((v # <<>>) = Accepts(call))

\* the vectors are the rows, and exactly the ill-formed streams are refused
Aligned == View(V) = T /\ ok
NoOverhang == Len(V.ctl) <= Len(V.inp) /\ Len(V.dom) <= Len(V.inp) /\ Len(V.chk) <= Len(V.inp)
Emit == (Emitting /\ Len(hist) = Depth) => PrintT(<<"history", hist>>)
=================================================================================
