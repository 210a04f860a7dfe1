------------------------------ MODULE Tr_History ------------------------------
(* Histories of hashing calls: event [th, a, r] = thread th made call a and  *)
(* observed result r.  A step of the history is accepted iff it is a Return  *)
(* step of Hasher.tla: the observed result is the value the specification    *)
(* gives for that call alone, whatever precedes it in the history and        *)
(* whatever the other threads do.  Equal results carry equal numbers, so the *)
(* first result of each call is compared with the specification's value and  *)
(* every later event with the first.                                         *)
EXTENDS Sponge, Published, TLC

Dir == IOEnv.TRACE_DIR
Trace == ndJsonDeserialize(Dir \o "/trace.ndjson")
Args == JsonDeserialize(Dir \o "/args.json")
Results == JsonDeserialize(Dir \o "/results.json")
LocalPrs == JsonDeserialize(Dir \o "/params.json")
Pub == PublishedData
Prs(i) == IF i > 1000 THEN Pub[i - 1000] ELSE LocalPrs[i]

Value(a) ==
  CASE a.k = "permute" -> Permute(Prs(a.pr), a.in)
    [] a.k = "plain"   -> PlainHash(Prs(a.pr), a.msg)
    [] a.k = "iden3"   -> Iden3Hash(Prs(a.pr), a.msg, a.dom)
    [] a.k = "var"     -> VarHash(Prs(a.pr), a.msg, a.cap)
    [] a.k = "vardef"  -> VarHash(Prs(a.pr), a.msg, DefaultCap(a.legacy, Len(a.msg)))

\* the result of the first event that made each call: [r |-> result number, 0 when never made, at |-> its position]
First == JsonDeserialize(Dir \o "/first.json")
K == 64
LenA == Len(Args)
Len0 == Len(Trace)

VARIABLES c, l, bad
vars == <<c, l, bad>>
Init == c \in 1..K /\ l = c /\ bad = FALSE
\* positions 1..LenA: the first result of every call made; the rest: every event of the history
CallOK(a) == First[a].at > 0 => First[a].r > 0 /\ Results[First[a].r] = Value(Args[a])
Return(e) == e.r > 0 /\ e.r = First[e.a].r
Next == /\ l <= LenA + Len0 /\ ~bad
        /\ bad' = IF l <= LenA THEN ~CallOK(l) ELSE ~Return(Trace[l - LenA])
        /\ l' = l + K /\ UNCHANGED c
Accepted == ~bad
Alias == [rejected |-> IF ~bad THEN 0 ELSE IF l - K <= LenA THEN First[l - K].at ELSE l - K - LenA]
Consumed == TLCGet("stats").distinct = LenA + Len0 + K
===============================================================================
