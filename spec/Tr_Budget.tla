------------------------------- MODULE Tr_Budget -------------------------------
(* Row budgets advertised by the code against the rows its circuits occupy.  *)
(* block: advertised rows per hash; min: advertised minimum for the table;   *)
(* used: rows from the top of the circuit to the last one any witness cell,  *)
(* selector or equality constraint occupies.  Rows are counted, not assumed: *)
(* a reservation of calcs hashes fits into calcs * block rows and the        *)
(* leading row (per region the permutation sub-circuit may reach one row     *)
(* further, for its result).                                                 *)
EXTENDS Naturals, Sequences, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE_DIR \o "/trace.ndjson")
N == Len(Trace)
VARIABLES l, bad
(* Recorded findings: sub-circuit, advertised rows per hash and the rows a   *)
(* hash really occupies there.  Only exactly these are let through.          *)
Finding == JsonDeserialize(IOEnv.FINDINGS)
Known(e) == \E i \in 1..Len(Finding) :
              /\ e.chip = Finding[i].chip /\ e.block = Finding[i].block
              /\ e.used = e.calcs * Finding[i].rows
(* A permutation on its own: rows that n of them occupy.  What poseidon-base  *)
(* advertises in a build (short: the septidon sub-circuit is selected, else  *)
(* Pow5) must not be less than the rows recorded there.                      *)
Like(e, chip) == {i \in 1..N : /\ Trace[i].k = "rows" /\ Trace[i].chip = chip
                               /\ <<Trace[i].field, Trace[i].p, Trace[i].rp>> = <<e.field, e.p, e.rp>>}
Advert(e) ==
  LET chip == IF e.short THEN "septidon" ELSE "pow5"
      S == Like(e, chip) IN
  /\ Assert(S # {} \/ (e.short /\ e.rp # 57), "no rows recorded")
  /\ e.ok
  /\ \A i \in S : Trace[i].ok /\ Trace[i].used <= Trace[i].n * e.block
Rows(e) == e.ok /\ e.used > 0
Budget(e) ==
  /\ e.size = e.n
  /\ e.min = e.n * e.block
  /\ e.ok => (e.used <= e.calcs * e.block + 1 \/ Known(e))
Step(e) == CASE e.k = "rows" -> Rows(e) [] e.k = "advert" -> Advert(e) [] OTHER -> Budget(e)
Init == l = 1 /\ bad = FALSE
Next == l <= N /\ ~bad /\ bad' = ~Step(Trace[l]) /\ l' = l + 1
Accepted == ~bad
Alias == [rejected |-> IF bad THEN l - 1 ELSE 0]
Consumed == TLCGet("stats").distinct = N + 1
================================================================================
