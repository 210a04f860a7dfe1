-------------------------------- MODULE Builder --------------------------------
(* The hash table while it is being filled.                                  *)
(*                                                                           *)
(* A call is [op, rows, start, step, last]: op "fixed" (two-word inputs with *)
(* a domain and perhaps a digest), "const" (two-word inputs without domain,  *)
(* perhaps with a digest) or "stream" (rows of one message whose remaining   *)
(* length begins at start and goes down by step, last being the digest       *)
(* expected after its last row).  A row of a call is [w, d, ck]: its words,  *)
(* its domain and digest as sequences of length 0 or 1.                      *)
(*                                                                           *)
(* The table is the sequence of rows added so far, [w, c, d, ck] with c the  *)
(* remaining length.  Lengths are 64-bit: sequences of limbs of 15 bits,     *)
(* least significant first.                                                  *)
EXTENDS Naturals, Sequences, SequencesExt

Limbs == 9
NZero == [i \in 1..Limbs |-> 0]
NSmall(n) == [i \in 1..Limbs |-> IF i = 1 THEN n % 32768 ELSE IF i = 2 THEN n \div 32768 ELSE 0]
NLess(a, b) == \E i \in 1..Limbs : a[i] < b[i] /\ \A j \in (i + 1)..Limbs : a[j] = b[j]
\* a - b for a >= b
NSub(a, b) ==
  FoldLeft(LAMBDA acc, i :
             LET v == a[i] + 32768 - b[i] - acc.c
             IN [c |-> IF v < 32768 THEN 1 ELSE 0, r |-> Append(acc.r, v % 32768)],
           [c |-> 0, r |-> <<>>], [i \in 1..Limbs |-> i]).r

(* Remaining lengths of at most n rows: a further row exists only while more *)
(* than one step remains.                                                    *)
RECURSIVE Lengths(_, _, _)
Lengths(start, step, n) ==
  IF n = 0 THEN <<>>
  ELSE IF n > 1 /\ NLess(step, start) THEN <<start>> \o Lengths(NSub(start, step), step, n - 1)
  ELSE <<start>>

LengthsOf(call) ==
  IF call.op = "stream" THEN Lengths(call.start, call.step, Len(call.rows))
  ELSE [i \in 1..Len(call.rows) |-> NZero]

\* a message with more rows than its declared length has, or with none, is refused
Accepts(call) ==
  call.op = "stream" => Len(call.rows) > 0 /\ Len(LengthsOf(call)) = Len(call.rows)

NewRows(call) ==
  LET n == Len(call.rows)
      c == LengthsOf(call)
  IN [i \in 1..n |->
       [w |-> call.rows[i].w, c |-> c[i],
        d |-> call.rows[i].d,
        ck |-> IF call.op = "stream" THEN (IF i = n THEN call.last ELSE <<>>) ELSE call.rows[i].ck]]

Add(T, call) == IF Accepts(call) THEN T \o NewRows(call) ELSE T
================================================================================
