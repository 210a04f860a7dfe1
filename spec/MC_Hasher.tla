------------------------------ MODULE MC_Hasher ------------------------------
EXTENDS Hasher
CallSet == {[kind |-> "two", cap |-> 1, words |-> <<1, 2>>], [kind |-> "two", cap |-> 0, words |-> <<1, 2>>],
            [kind |-> "msg", cap |-> 3, words |-> <<1, 2, 3>>]}
===============================================================================
