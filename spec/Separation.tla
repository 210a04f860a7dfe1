------------------------------ MODULE Separation ------------------------------
(* Which hashing calls are the same computation?  The permutation is treated *)
(* as a free (injective, otherwise unknown) function on states: two calls    *)
(* must collide iff their symbolic digests are equal.                        *)
(* SymKey gives, for a call, the sequence of vectors added to the state      *)
(* before each permutation; SymDigest the nested term.  MC_Separation checks *)
(* that equality of terms, equality of keys and "same capacity and same      *)
(* zero-padded words" coincide.                                              *)
EXTENDS Sponge

LOCAL Ceil(a, b) == (a + b - 1) \div b

\* vectors added before each permutation
SymKey(pr, lay, cap, msg) ==
  LET w == Padded(pr, msg)
      placed(k) == [i \in 1..pr.t |-> IF i > lay /\ i <= lay + pr.rate THEN w[(k - 1) * pr.rate + i - lay]
                                     ELSE FZero(pr.f)]
      init == InitState(pr, lay, cap)
  IN [k \in 1..Ceil(Len(msg), pr.rate) |->
        IF k = 1 THEN [i \in 1..pr.t |-> FAdd(pr.f, init[i], placed(1)[i])] ELSE placed(k)]

\* a symbolic state is either a ground vector or <<"perm", vectors absorbed so far>>;
\* adding a zero vector leaves it unchanged
SymDigest(pr, lay, cap, msg) ==
  LET key == SymKey(pr, lay, cap, msg)
  IN FoldLeft(LAMBDA term, k : <<"perm", term, key[k]>>, <<"start">>, Range1(Len(key)))

\* the published notion
CanonVar(pr, cap, msg) == <<cap, Padded(pr, msg)>>
===============================================================================
