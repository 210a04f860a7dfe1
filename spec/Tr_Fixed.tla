-------------------------------- MODULE Tr_Fixed --------------------------------
(* The fixed part of the circuit as a write-once memory: the key is the      *)
(* reserved size, the step, the sub-circuit and the field; the first load    *)
(* with a key defines the fixed cells, enabled selectors and equality        *)
(* constraints, and every later load with that key, whatever its table       *)
(* holds and however it is loaded, must produce the same.  For the circuits  *)
(* of C20 (sub-circuits, sponge, table) the key is the shape, and the events *)
(* are syntheses without a witness, as when keys are generated, and with     *)
(* various witnesses, as when proofs are made.                               *)
EXTENDS Naturals, Sequences, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE_DIR \o "/trace.ndjson")
N == Len(Trace)
VARIABLES l, mem, bad
vars == <<l, mem, bad>>
Part(e) == <<e.side.fixed, e.side.sel, e.side.copies>>
Load(e) ==
  /\ mem' = IF e.key \in DOMAIN mem THEN mem ELSE mem @@ (e.key :> l)
  /\ bad' = ~(e.side.ok /\ e.side.clash = 0 /\ (e.key \in DOMAIN mem => Part(e) = Part(Trace[mem[e.key]])))
Init == l = 1 /\ mem = << >> /\ bad = FALSE
Next == l <= N /\ ~bad /\ Load(Trace[l]) /\ l' = l + 1
Accepted == ~bad
Alias == [rejected |-> IF bad THEN l - 1 ELSE 0, first |-> mem]
Consumed == TLCGet("stats").distinct = N + 1
=================================================================================
