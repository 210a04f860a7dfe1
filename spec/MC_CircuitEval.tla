---------------------------- MODULE MC_CircuitEval ----------------------------
(* The Java evaluator of CircuitEval against its TLA+ definition: every      *)
(* constraint polynomial of every row of the recorded circuits.              *)
EXTENDS CircuitEval, Json, IOUtils

Circs == ndJsonDeserialize(IOEnv.TRACE_DIR \o "/trace.ndjson")
N == Len(Circs)
VARIABLES k, r
vars == <<k, r>>
Init == k \in {i \in 1..N : Circs[i].refused = ""} /\ r \in 0..(Circs[k].usable - 1)
Next == UNCHANGED vars
PureVanishes(c, e, row) == Fixd(c, e, row) = <<FZero(c.f)>>
Exprs(c) == {c.polys[q].e : q \in 1..Len(c.polys)} \cup UNION {{c.lks[l].in[j] : j \in 1..Len(c.lks[l].in)} : l \in 1..Len(c.lks)}
Agree == LET c == Circs[k] IN
  \A e \in Exprs(c) : /\ PolyVal(c, e, r, <<>>, 0) = PurePolyVal(c, e, r, <<>>, 0)
                      /\ Vanishes(c, e, r) = PureVanishes(c, e, r)
===============================================================================
