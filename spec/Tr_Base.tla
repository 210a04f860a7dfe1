-------------------------------- MODULE Tr_Base --------------------------------
(* Trace specification for logged calls of poseidon-base.  Every event is    *)
(* one call (or one observed table); it is accepted iff the logged result is *)
(* the one the specification gives.  The trace is cut into K chains that TLC *)
(* explores in parallel.                                                     *)
EXTENDS Sponge, Published, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE_DIR \o "/trace.ndjson")
LocalPrs == JsonDeserialize(IOEnv.TRACE_DIR \o "/params.json")
Pub == PublishedData
Prs(i) == IF i > 1000 THEN Pub[i - 1000] ELSE LocalPrs[i]
K == 64
Len0 == Len(Trace)

VARIABLES c, l, bad
vars == <<c, l, bad>>

(* ---- what the specification says about each kind of event --------------- *)
PermuteOK(e) == e.ok /\ e.out = Permute(Prs(e.pr), e.in)
PlainOK(e) == e.ok /\ e.out = PlainHash(Prs(e.pr), e.msg)
Iden3OK(e) == e.ok /\ e.out = Iden3Hash(Prs(e.pr), e.msg, e.dom)
VarOK(e) == e.ok /\ e.out = VarHash(Prs(e.pr), e.msg, e.cap)
VarDefOK(e) == e.ok /\ e.out = VarHash(Prs(e.pr), e.msg, DefaultCap(e.legacy, Len(e.msg)))

DomainOK(e) ==
  LET d == DomainRec(e.f, e.d, e.len, e.t, e.rate) IN e.ok /\ e.cap = d.cap /\ e.pad = d.pad /\ e.lay = d.lay

RoundsOK(e, pr) == e.rf = pr.rf /\ e.rp = pr.rp
CompactOK(e) ==
  LET pr == Prs(e.pr)
  IN /\ e.ok /\ RoundsOK(e, pr)
     /\ e.rc = Compact(pr) /\ e.mds = pr.mds /\ e.inv = e.inv0
     /\ \A r \in 1..NumRounds(pr) : ~IsFull(pr, r) => \A j \in 2..pr.t : e.rc[r][j] = FZero(pr.f)
RawOK(e) ==
  LET pr == Prs(e.pr) IN e.ok /\ RoundsOK(e, pr) /\ e.rc = pr.rc /\ e.mds = pr.mds /\ e.inv = e.inv0
BothOK(e) == e.ok /\ e.raw = e.out /\ e.out = Permute(Prs(e.pr), e.in)

GenOK(e) ==
  LET g == GenParams(e.f, e.t, e.rf, e.rp, e.skip)
  IN /\ e.ok = g.ok
     /\ e.ok => /\ e.rc = g.rc /\ e.mds = g.mds
                /\ MatMul(e.f, e.mds, e.inv) = Identity(e.f, e.t)

TableOK(e) ==
  LET pr == Prs(e.pr)
  IN /\ e.ok
     /\ \/ e.form \in {"raw", "either"} /\ e.rc = pr.rc
        \/ e.form \in {"compact", "either"} /\ e.rc = Compact(pr)
     /\ e.mds = pr.mds
     /\ e.inv # <<>> => MatMul(pr.f, e.mds, e.inv) = Identity(pr.f, 3)
TabRoundsOK(e) ==
  LET pr == Prs(e.pr) IN (\A i \in 1..Len(e.rf) : e.rf[i] = pr.rf) /\ (\A i \in 1..Len(e.rp) : e.rp[i] = pr.rp)

EventOK(e) ==
  CASE e.k = "permute" -> PermuteOK(e)
    [] e.k = "plain"   -> PlainOK(e)
    [] e.k = "iden3"   -> Iden3OK(e)
    [] e.k = "var"     -> VarOK(e)
    [] e.k = "vardef"  -> VarDefOK(e)
    [] e.k = "domain"  -> DomainOK(e)
    [] e.k = "compact" -> CompactOK(e)
    [] e.k = "rawset"  -> RawOK(e)
    [] e.k = "both"    -> BothOK(e)
    [] e.k = "gen"     -> GenOK(e)
    [] e.k = "table"   -> TableOK(e)
    [] e.k = "rounds"  -> TabRoundsOK(e)

Init == c \in 1..K /\ l = c /\ bad = FALSE
Next == /\ l <= Len0 /\ ~bad
        /\ bad' = ~EventOK(Trace[l])
        /\ l' = l + K /\ UNCHANGED c

Accepted == ~bad
\* the rejected event is at position l - K
Where == IF bad THEN l - K ELSE 0
Alias == [rejected |-> Where]
\* every event was consumed
Consumed == TLCGet("stats").distinct = Len0 + K
================================================================================
