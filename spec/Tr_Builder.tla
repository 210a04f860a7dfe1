------------------------------- MODULE Tr_Builder -------------------------------
(* Recorded histories of the real builder, replayed through Builder.tla.     *)
(* Event: the call (fixed, stream, const), whether it was accepted, and the  *)
(* public vectors afterwards, each brought to the number of rows.  "undo"    *)
(* follows a refused call: the history goes on with the table before it.     *)
EXTENDS Builder, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE_DIR \o "/trace.ndjson")
N == Len(Trace)
Starts == {i \in 1..N : i = 1 \/ Trace[i].hist # Trace[i - 1].hist}

VARIABLES l, T, bad
vars == <<l, T, bad>>

View(e) == [i \in 1..Len(e.w) |-> [w |-> e.w[i], c |-> e.c[i], d |-> e.d[i], ck |-> e.ck[i]]]
\* adding an empty stream may be refused or do nothing
MayRefuse(e) == ~Accepts(e)
MayAccept(e) == Accepts(e) \/ (e.op = "stream" /\ e.rows = <<>>)
Shows(e, t) == /\ e.size = Len(t) /\ Len(e.w) = Len(t) /\ Len(e.c) = Len(t) /\ Len(e.d) = Len(t) /\ Len(e.ck) = Len(t)
               /\ View(e) = t

Init == l \in Starts /\ T = <<>> /\ bad = FALSE
Step(e) ==
  IF e.op = "undo" THEN /\ T' = T /\ bad' = ~Shows(e, T)
  ELSE IF e.ok THEN /\ T' = Add(T, e) /\ bad' = ~(MayAccept(e) /\ Shows(e, T'))
  ELSE T' = T /\ bad' = ~MayRefuse(e)
Next == /\ ~bad /\ l <= N
        /\ Step(Trace[l])
        /\ l' = IF l + 1 \in Starts THEN N + 1 + l ELSE l + 1
Accepted == ~bad
Alias == [rejected |-> IF bad THEN (IF l > N THEN l - N - 1 ELSE l - 1) ELSE 0, table |-> T]
Consumed == TLCGet("stats").distinct >= N
=================================================================================
