-------------------------------- MODULE Tr_Pair --------------------------------
(* Pairs of loads of one table, serial and parallel, recorded from the real  *)
(* code: either both were refused, or both were accepted and left the same   *)
(* fixed cells, enabled selectors, equality constraints and witness cells,   *)
(* no cell being assigned two different values.  (ParSynth.tla is the design *)
(* that achieves this.)                                                      *)
EXTENDS Naturals, Sequences, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE_DIR \o "/trace.ndjson")
N == Len(Trace)
VARIABLES l, bad
Pair(e) ==
  /\ e.serial.ok = e.parallel.ok
  /\ e.serial.ok =>
       /\ e.serial.fixed = e.parallel.fixed
       /\ e.serial.sel = e.parallel.sel
       /\ e.serial.copies = e.parallel.copies
       /\ e.serial.advice = e.parallel.advice
       /\ e.serial.clash = 0 /\ e.parallel.clash = 0
  \* a table with no more rows than reserved and true digests is not refused
  /\ (e.n <= e.calcs /\ ~e.wrong) => e.serial.ok
Init == l = 1 /\ bad = FALSE
Next == l <= N /\ ~bad /\ bad' = ~Pair(Trace[l]) /\ l' = l + 1
Accepted == ~bad
Alias == [rejected |-> IF bad THEN l - 1 ELSE 0]
Consumed == TLCGet("stats").distinct = N + 1
================================================================================
