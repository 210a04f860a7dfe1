------------------------------ MODULE Published ------------------------------
(* The two published parameter sets: BN254 scalar field and Pallas base      *)
(* field, width 3, 8 full rounds, 57 / 56 partial rounds, x^5, first matrix  *)
(* of the generator.  data/published.json holds what Grain!GenParams yields  *)
(* for them (written by MC_Published, which check C08 re-runs and compares). *)
EXTENDS Grain, Json, IOUtils

Bn254 == [big |-> TRUE, p |-> <<1, 24576, 22095, 7951, 2324, 14126, 4638, 6644, 23848, 688, 23046, 557, 7045, 13317, 14412, 10041, 12388>>]
Pallas == [big |-> TRUE, p |-> <<1, 0, 17332, 18793, 4537, 10655, 16130, 9036, 34, 0, 0, 0, 0, 0, 0, 0, 16384>>]

MkSet(f, rp) ==
  LET g == GenParams(f, 3, 8, rp, 0)
  IN [f |-> f, t |-> 3, rate |-> 2, rf |-> 8, rp |-> rp, alpha |-> 5, rc |-> g.rc, mds |-> g.mds]

PublishedData == JsonDeserialize(IOEnv.SPEC_DATA \o "/published.json")
==============================================================================
