-------------------------------- MODULE ParSynth --------------------------------
(* Loading a table in parallel.  The rows (calcs of them, the first n from   *)
(* the table, the others blank) are cut into chunks; each chunk is assigned  *)
(* by its own worker into its own region, in two passes: the first tells the *)
(* layouter how many rows the region takes, the second writes the cells.     *)
(* Regions are laid one below the other.  Workers take any order, and their  *)
(* writes interleave row by row.                                             *)
(*                                                                           *)
(* What a row carries depends on the message it belongs to: where the        *)
(* message begins (head mark, capacity, sponge state) and where it ends (its *)
(* digest).  A row is therefore [data, head, from, dig].  Serial is what one *)
(* worker going through all rows writes.                                     *)
(*                                                                           *)
(* Cut = "message" is the code's design, "anywhere" one that cuts chunks of  *)
(* equal length; the latter must fail.                                       *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt

CONSTANTS MaxRows, MaxCpus, Cut

VARIABLES ends, cpus, chunks, shaped, at, cells
vars == <<ends, cpus, chunks, shaped, at, cells>>
\* ends[i]: the message of row i ends there; chunks: <<first, last>> of each
\* shaped: chunks whose first pass is over; at[j]: rows of chunk j written

Calcs(e) == Len(e)
Start(e, lo, i) == CHOOSE j \in lo..i : (j = lo \/ e[j - 1]) /\ \A k \in j..(i - 1) : ~e[k]
Finish(e, i, hi) == IF \E j \in i..hi : e[j] THEN CHOOSE j \in i..hi : e[j] /\ \A k \in i..(j - 1) : ~e[k] ELSE 0

\* the cells of row i when rows lo..hi are assigned by one worker
RowOf(e, lo, hi, i) ==
  LET s == Start(e, lo, i)
  IN [data |-> i, head |-> s = i, from |-> s, dig |-> Finish(e, i, hi), custom |-> i = Len(e)]
Serial(e) == [i \in 1..Len(e) |-> RowOf(e, 1, Len(e), i)]

(* ---- the chunks ---------------------------------------------------------- *)
MinLen(e, c) == Len(e) \div c + 1
CutsAt(e, c, b, i) == (Cut = "anywhere" \/ e[i]) /\ i - b + 1 >= MinLen(e, c)
RECURSIVE Chunked(_, _, _, _)
Chunked(e, c, b, i) ==
  IF i > Len(e) THEN (IF b <= Len(e) THEN <<<<b, Len(e)>>>> ELSE <<>>)
  ELSE IF CutsAt(e, c, b, i) THEN <<<<b, i>>>> \o Chunked(e, c, i + 1, i + 1)
  ELSE Chunked(e, c, b, i + 1)

Tables == UNION {[1..k -> BOOLEAN] : k \in 1..MaxRows}
Init == /\ ends \in Tables /\ cpus \in 1..MaxCpus
        /\ chunks = Chunked(ends, cpus, 1, 1)
        /\ shaped = {}
        /\ at = [j \in 1..Len(chunks) |-> 0]
        /\ cells = [i \in 1..Len(ends) |-> <<>>]

Size(j) == chunks[j][2] - chunks[j][1] + 1
\* a region begins where the regions before it end
Offset(j) == FoldLeft(LAMBDA s, x : s + Size(x), 0, [x \in 1..(j - 1) |-> x])
Shape(j) == /\ j \notin shaped /\ shaped' = shaped \cup {j} /\ UNCHANGED <<ends, cpus, chunks, at, cells>>
Write(j) == /\ shaped = 1..Len(chunks) /\ at[j] < Size(j)
            /\ LET i == chunks[j][1] + at[j]
               IN cells' = [cells EXCEPT ![Offset(j) + at[j] + 1] = RowOf(ends, chunks[j][1], chunks[j][2], i)]
            /\ at' = [at EXCEPT ![j] = @ + 1]
            /\ UNCHANGED <<ends, cpus, chunks, shaped>>
Done == shaped = 1..Len(chunks) /\ \A j \in 1..Len(chunks) : at[j] = Size(j)
Next == (\E j \in 1..Len(chunks) : Shape(j) \/ Write(j)) \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

SameAsSerial == Done => cells = Serial(ends)
\* no cell is written by two workers, none is left out
Disjoint == \A i, j \in 1..Len(chunks) : i < j => chunks[i][2] < chunks[j][1]
Covers == FoldLeft(LAMBDA s, x : s + Size(x), 0, [x \in 1..Len(chunks) |-> x]) = Len(ends)
\* no more chunks than workers
Bounded == Len(chunks) <= cpus
Finishes == <>Done
==================================================================================
