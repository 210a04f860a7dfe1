-------------------------------- MODULE Tr_Check --------------------------------
(* Tables with declared digests, loaded by the real code.  The specification *)
(* runs the sponge over the rows as HashTable does; a load is refused iff    *)
(* some row declares a digest other than the first word of the sponge state  *)
(* after that row.                                                           *)
EXTENDS HashTable, Published, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE_DIR \o "/trace.ndjson")
LocalPrs == JsonDeserialize(IOEnv.TRACE_DIR \o "/params.json")
Pub == PublishedData
Prs(i) == IF i > 1000 THEN Pub[i - 1000] ELSE LocalPrs[i]
N == Len(Trace)
K == 64

VARIABLES c, l, bad
vars == <<c, l, bad>>

True(e) ==
  LET pr == Prs(e.pr)
      Row(acc, x) ==
        LET st == IF acc.fresh THEN AbsorbRow(LAMBDA s : Permute(pr, s), pr, Blank(pr), x.w, FAdd(pr.f, FlagOf(pr.f, x), x.d))
                  ELSE AbsorbRow(LAMBDA s : Permute(pr, s), pr, acc.st, x.w, FZero(pr.f))
        IN [st |-> st, fresh |-> x.last, ok |-> acc.ok /\ (x.hc => x.ck = st[1])]
  IN FoldLeft(Row, [st |-> Blank(pr), fresh |-> TRUE, ok |-> TRUE], e.rows).ok

Load(e) == e.ok = True(e)
Init == c \in 1..K /\ l = c /\ bad = FALSE
Next == l <= N /\ ~bad /\ bad' = ~Load(Trace[l]) /\ l' = l + K /\ UNCHANGED c
Accepted == ~bad
Alias == [rejected |-> IF bad THEN l - K ELSE 0]
Consumed == TLCGet("stats").distinct = N + K
=================================================================================
