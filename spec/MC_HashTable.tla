------------------------------ MODULE MC_HashTable ------------------------------
(* The two views of the exposed table against each other, over a small field *)
(* and every table of up to MaxRows exposed rows whose words and domains are *)
(* taken from a few values: reading the rows one by one (ReadTable) accepts  *)
(* exactly the tables that split into messages with true digests, falling    *)
(* flags and correct head marks; and it accepts what Expose yields.          *)
EXTENDS HashTable, TLC, FiniteSets
CONSTANTS Prime, MaxRows, Step, WordSet, DomSet

F == [big |-> FALSE, p |-> Prime]
Elems == 0..(Prime - 1)
\* some permutation parameters
Pr == [f |-> F, t |-> 3, rate |-> 2, rf |-> 2, rp |-> 1, alpha |-> 5,
       rc |-> << <<1, 2, 0>>, <<0, 1, 1>>, <<2, 0, 1>> >>, mds |-> << <<1, 1, 2>>, <<2, 1, 1>>, <<1, 2, 1>> >>]
Unit == FReduceDigits(F, TwoTo64Times(1))

\* the permutation, tabulated
Code(s) == 1 + s[1] + Prime * s[2] + Prime * Prime * s[3]
Tab == [n \in 1..(Prime * Prime * Prime) |-> Permute(Pr, <<(n - 1) % Prime, ((n - 1) \div Prime) % Prime, (n - 1) \div (Prime * Prime)>>)]
P(s) == Tab[Code(s)]

(* ---- the declarative reading ---------------------------------------------- *)
\* rows i..j of X are one message with true digests
RECURSIVE StateAfter(_, _, _)
StateAfter(X, i, j) ==
  IF j = i THEN P(<<FAdd(F, X[i][4], X[i][5]), X[i][2], X[i][3]>>)
  ELSE LET s == StateAfter(X, i, j - 1) IN P(<<FAdd(F, s[1], X[j][5]), FAdd(F, s[2], X[j][2]), FAdd(F, s[3], X[j][3])>>)
IsMessage(X, i, j) ==
  /\ X[i][6] = 1 /\ \A q \in (i + 1)..j : X[q][6] = 0
  /\ \A q \in (i + 1)..j : X[q][4] = FSub(F, X[q - 1][4], FMul(F, FInt(F, Step), Unit))
  /\ i < j => \A q \in i..j : X[q][4] # 0
  /\ \E s \in 0..Step : X[j][4] = FMul(F, FInt(F, s), Unit)
  /\ \A q \in i..j : X[q][1] = StateAfter(X, i, j)[1]
\* cuts of 1..n into intervals, by the set of first rows
SplitsAt(X, n) == \E heads \in SUBSET (1..n) :
  /\ (n > 0 => 1 \in heads)
  /\ \A h \in heads : LET later == {x \in heads : x > h}
                          j == IF later = {} THEN n ELSE (CHOOSE x \in later : \A y \in later : x <= y) - 1
                      IN IsMessage(X, h, j)
Declared(X) ==
  LET n == Len(X)
  IN /\ SplitsAt(X, n - 1)
     \* the reserved last row: a zero input of its own, its digest free
     /\ X[n][2] = 0 /\ X[n][3] = 0 /\ X[n][4] = 0 /\ X[n][6] = 1

VARIABLES X, m
vars == <<X, m>>
Read(mm, x, final) == RowStepBy(P, Pr, Unit, Step, mm, x, final)
Init == X = <<>> /\ m = MonInit(Pr)
Rows == {<<h, a, b, c, d, k>> : h \in Elems, a \in WordSet, b \in WordSet, c \in Elems, d \in DomSet, k \in {0, 1, 2}}
Next == /\ Len(X) < MaxRows /\ ~m.bad
        /\ \E x \in Rows : X' = Append(X, x) /\ m' = Read(m, x, FALSE)
\* every table in sight, closed by any last row
LastRows == {<<h, a, 0, c, 0, k>> : h \in {0, 1}, a \in {0, 1}, c \in Elems, k \in {0, 1}}
Same == ~m.bad => \A x \in LastRows : (~Read(m, x, TRUE).bad) = Declared(Append(X, x))
\* a table the reader has given up on is not a table
NoRevival == m.bad => \A x \in LastRows : ~Declared(Append(X, x))

(* ---- what Expose yields is accepted --------------------------------------- *)
HonestRows == {[w |-> <<a, b>>, c |-> TwoTo64Times(n), n |-> n, last |-> n <= Step, d |-> d] :
                 a \in WordSet, b \in WordSet, n \in 0..(3 * Step), d \in DomSet}
\* flags fall by the step within a message; a continuing row carries no domain
WellFormed(R) ==
  /\ \A i \in 2..Len(R) : ~R[i - 1].last => (R[i].n = R[i - 1].n - Step /\ R[i].d = 0)
  /\ R = <<>> \/ R[Len(R)].last
HonestTables(n) == {R \in [1..n -> HonestRows] : WellFormed(R)}
\* flags n, up to 3 * Step, must be different in the field
ASSUME Cardinality({FMul(F, FInt(F, i), Unit) : i \in 0..(3 * Step)}) = 3 * Step + 1
ExposeAccepted ==
  \A n \in 0..2 : \A R \in HonestTables(n) :
    LET E == Expose(Pr, R, n + 1)
    IN ~ReadTable(Pr, Unit, Step, E).bad /\ Declared(E)
ASSUME ExposeAccepted
================================================================================
