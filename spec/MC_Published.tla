----------------------------- MODULE MC_Published -----------------------------
EXTENDS Published, TLC
VARIABLES k, v
Init == k \in {1, 2} /\ v = <<>>
Next == v = <<>> /\ v' = (IF k = 1 THEN MkSet(Bn254, 57) ELSE MkSet(Pallas, 56)) /\ UNCHANGED k
\* the committed data are the derivation, and (first run) it can be written out
Same == v = <<>> \/ v = PublishedData[k]
Write == v = <<>> \/ JsonSerialize(IOEnv.OUT \o "/set" \o ToString(k) \o ".json", v)
===============================================================================
