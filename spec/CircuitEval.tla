------------------------------ MODULE CircuitEval ------------------------------
(* The value of a constraint polynomial of a recorded circuit at a row.      *)
(*                                                                           *)
(* A circuit record c has                                                    *)
(*   f       the field                                                       *)
(*   n       number of rows; rotations wrap modulo n                         *)
(*   usable  rows 0 .. usable-1 carry constraints                            *)
(*   vals    the field elements the record refers to by index                *)
(*   nodes   expressions, [t |-> kind, ...] with kinds "c" constant,         *)
(*           "s" selector, "f" fixed cell, "a" witness cell, "n" negation,   *)
(*           "+" sum, "*" product, "k" scaled by a constant                  *)
(*   fixed, sel, adv   cells by column and row; fixed and adv are indices    *)
(*           into vals, adv being the witness the code itself assigned       *)
(*                                                                           *)
(* A witness is either <<>>, which stands for the recorded one, or a tuple   *)
(* of values by slot.  In the latter case c.cls maps a witness cell to its   *)
(* copy class (positive) or to the index of a fixed value it is tied to      *)
(* (negative); class q lives in slot c.slot[q] from step c.birth[q] to       *)
(* c.death[q] of the search plan, and t is the current step.                 *)
(*                                                                           *)
(* java/CircuitEval.class, when present, evaluates PolyVal with the same     *)
(* meaning (MC_CircuitEval compares the two on recorded circuits).           *)
EXTENDS Field, TLC

CellVal(c, col, row, a, t) ==
  IF a = <<>> THEN c.vals[c.adv[col + 1][row + 1]]
  ELSE LET q == c.cls[col + 1][row + 1]
       IN IF q < 0 THEN c.vals[0 - q]
          ELSE IF Assert(q > 0 /\ c.birth[q] <= t /\ t <= c.death[q], <<"cell not assigned", col, row, t>>)
               THEN a[c.slot[q]] ELSE a[1]

Wrap(c, r) == (r + c.n) % c.n

(* What selectors and fixed cells alone determine: the sequence holding the  *)
(* value, or the empty one when it depends on the witness.                   *)
RECURSIVE Fixd(_, _, _)
Fixd(c, e, r) ==
  LET nd == c.nodes[e]
      f == c.f
      Both(Op(_, _), x, y) == IF x # <<>> /\ y # <<>> THEN <<Op(x[1], y[1])>> ELSE <<>>
  IN CASE nd.t = "c" -> <<c.vals[nd.v]>>
       [] nd.t = "s" -> <<IF c.sel[nd.c + 1][r + 1] = 1 THEN FOne(f) ELSE FZero(f)>>
       [] nd.t = "f" -> <<c.vals[c.fixed[nd.c + 1][Wrap(c, r + nd.r) + 1]]>>
       [] nd.t = "a" -> <<>>
       [] nd.t = "n" -> LET x == Fixd(c, nd.a, r) IN IF x = <<>> THEN x ELSE <<FNeg(f, x[1])>>
       [] nd.t = "+" -> Both(LAMBDA x, y : FAdd(f, x, y), Fixd(c, nd.a, r), Fixd(c, nd.b, r))
       [] nd.t = "k" -> LET x == Fixd(c, nd.a, r)
                        IN IF c.vals[nd.v] = FZero(f) THEN <<FZero(f)>>
                           ELSE IF x = <<>> THEN x ELSE <<FMul(f, c.vals[nd.v], x[1])>>
       [] nd.t = "*" -> LET x == Fixd(c, nd.a, r)
                            y == Fixd(c, nd.b, r)
                        IN IF x = <<FZero(f)>> \/ y = <<FZero(f)>> THEN <<FZero(f)>>
                           ELSE Both(LAMBDA u, v : FMul(f, u, v), x, y)
\* zero whatever the witness
Vanishes(c, e, r) == Fixd(c, e, r) = <<FZero(c.f)>>

RECURSIVE PurePolyVal(_, _, _, _, _)
PurePolyVal(c, e, r, a, t) ==
  LET nd == c.nodes[e]
      f == c.f
  IN CASE nd.t = "c" -> c.vals[nd.v]
       [] nd.t = "s" -> IF c.sel[nd.c + 1][r + 1] = 1 THEN FOne(f) ELSE FZero(f)
       [] nd.t = "f" -> c.vals[c.fixed[nd.c + 1][Wrap(c, r + nd.r) + 1]]
       [] nd.t = "a" -> CellVal(c, nd.c, Wrap(c, r + nd.r), a, t)
       [] nd.t = "n" -> FNeg(f, PurePolyVal(c, nd.a, r, a, t))
       [] nd.t = "+" -> FAdd(f, PurePolyVal(c, nd.a, r, a, t), PurePolyVal(c, nd.b, r, a, t))
       [] nd.t = "k" -> IF c.vals[nd.v] = FZero(f) THEN FZero(f)
                        ELSE FMul(f, c.vals[nd.v], PurePolyVal(c, nd.a, r, a, t))
       \* a factor that is zero on the recorded fixed part makes the product
       \* zero whatever the witness cells of the other factor hold
       [] nd.t = "*" -> IF Vanishes(c, nd.a, r) \/ Vanishes(c, nd.b, r) THEN FZero(f)
                        ELSE FMul(f, PurePolyVal(c, nd.a, r, a, t), PurePolyVal(c, nd.b, r, a, t))
PolyVal(c, e, r, a, t) == PurePolyVal(c, e, r, a, t)
================================================================================
