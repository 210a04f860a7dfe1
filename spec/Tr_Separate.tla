----------------------------- MODULE Tr_Separate -----------------------------
(* Equality pattern of real digests: each event is a call with the number of *)
(* its digest (order of first appearance).  The map from symbolic key to     *)
(* digest number must be well defined and injective.                         *)
EXTENDS Separation, Published, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE_DIR \o "/trace.ndjson")
Len0 == Len(Trace)
pr == [f |-> Bn254, t |-> 3, rate |-> 2]
IsPrefixZero(m) == TRUE
Key(e) ==
  CASE e.k = "svar"   -> SymKey(pr, 1, FReduceDigits(pr.f, IF e.cap = <<>> THEN DefaultCap(e.legacy, Len(e.msg)) ELSE e.cap), e.msg)
    [] e.k = "siden3" -> SymKey(pr, 1, e.dom, e.msg)
    [] e.k = "splain" -> SymKey(pr, 0, FReduceDigits(pr.f, TwoTo64Times(Len(e.msg))), e.msg)
\* keyed pairs; constant, evaluated once
Keys == [i \in 1..Len0 |-> Key(Trace[i])]
\* first event with the same digest number / representative per digest
Rep == LET ds == {Trace[i].d : i \in 1..Len0}
       IN [d \in ds |-> CHOOSE i \in 1..Len0 : Trace[i].d = d /\ \A j \in 1..(i - 1) : Trace[j].d # d]
K == 64
VARIABLES c, l, bad
Init == c \in 1..K /\ l = c /\ bad = FALSE
\* the event's key equals the key of the first event with this digest (well
\* defined inverse), and a first event's key differs from all earlier keys
\* (no key has two digests)
EventOK(i) == /\ Trace[i].d > 0
              /\ Keys[i] = Keys[Rep[Trace[i].d]]
              /\ Rep[Trace[i].d] = i => \A j \in 1..(i - 1) : Keys[j] # Keys[i]
Next == /\ l <= Len0 /\ ~bad
        /\ bad' = ~EventOK(l)
        /\ l' = l + K /\ UNCHANGED c
Accepted == ~bad
Alias == [rejected |-> IF bad THEN l - K ELSE 0]
Consumed == TLCGet("stats").distinct = Len0 + K
===============================================================================
