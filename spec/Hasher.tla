-------------------------------- MODULE Hasher --------------------------------
(* Concurrent callers of the process-wide hashers.  Each kind of hasher      *)
(* (two-word, message) lives in a once-cell; a call obtains the cell         *)
(* (initialising it if it is the first), clones the template, sets the       *)
(* capacity on its clone, absorbs the words one by one and squeezes.  The    *)
(* shared round constants are a lazily initialised cell of their own, needed *)
(* before the first permutation.  A hasher value is [cap, words].            *)
(* ShareTemplate = TRUE is a deliberately broken design in which calls work  *)
(* on the template itself: the invariants must fail for it.                  *)
EXTENDS Naturals, Sequences, TLC
CONSTANTS Clients, Calls, MaxCalls, ShareTemplate
\* Calls: set of records [kind, cap, words]
Kinds == {"two", "msg"}
Fresh == [cap |-> 0, words |-> <<>>]
None == [cap |-> 99, words |-> <<>>]
VARIABLES cell, owner, tmpl, params, pc, call, loc, ans, done
vars == <<cell, owner, tmpl, params, pc, call, loc, ans, done>>

Init == /\ cell = [k \in Kinds |-> "empty"] /\ owner = [k \in Kinds |-> "none"]
        /\ tmpl = [k \in Kinds |-> None] /\ params = "empty"
        /\ pc = [c \in Clients |-> "idle"] /\ call = [c \in Clients |-> None]
        /\ loc = [c \in Clients |-> None] /\ ans = [c \in Clients |-> None] /\ done = [c \in Clients |-> 0]

Invoke(c, a) == /\ pc[c] = "idle" /\ done[c] < MaxCalls
                /\ call' = [call EXCEPT ![c] = a] /\ pc' = [pc EXCEPT ![c] = "get"]
                /\ UNCHANGED <<cell, owner, tmpl, params, loc, ans, done>>
StartInit(c) == /\ pc[c] = "get" /\ cell[call[c].kind] = "empty"
                /\ cell' = [cell EXCEPT ![call[c].kind] = "busy"] /\ owner' = [owner EXCEPT ![call[c].kind] = c]
                /\ pc' = [pc EXCEPT ![c] = "init"]
                /\ UNCHANGED <<tmpl, params, call, loc, ans, done>>
FinishInit(c) == /\ pc[c] = "init" /\ owner[call[c].kind] = c
                 /\ tmpl' = [tmpl EXCEPT ![call[c].kind] = Fresh] /\ cell' = [cell EXCEPT ![call[c].kind] = "ready"]
                 /\ owner' = [owner EXCEPT ![call[c].kind] = "none"]
                 /\ pc' = [pc EXCEPT ![c] = "get"]
                 /\ UNCHANGED <<params, call, loc, ans, done>>
Clone(c) == /\ pc[c] = "get" /\ cell[call[c].kind] = "ready"
            /\ loc' = [loc EXCEPT ![c] = tmpl[call[c].kind]] /\ pc' = [pc EXCEPT ![c] = "cap"]
            /\ UNCHANGED <<cell, owner, tmpl, params, call, ans, done>>
\* a step of the call on its working hasher
Work(c, h) == IF ShareTemplate THEN tmpl' = [tmpl EXCEPT ![call[c].kind] = h] /\ UNCHANGED loc
              ELSE loc' = [loc EXCEPT ![c] = h] /\ UNCHANGED tmpl
Mine(c) == IF ShareTemplate THEN tmpl[call[c].kind] ELSE loc[c]
SetCap(c) == /\ pc[c] = "cap"
             /\ Work(c, [Mine(c) EXCEPT !.cap = @ + call[c].cap])
             /\ pc' = [pc EXCEPT ![c] = "absorb"]
             /\ UNCHANGED <<cell, owner, params, call, ans, done>>
Absorb(c) == /\ pc[c] = "absorb" /\ Len(Mine(c).words) < Len(call[c].words)
             /\ Work(c, [Mine(c) EXCEPT !.words = Append(@, call[c].words[Len(@) + 1])])
             /\ UNCHANGED <<cell, owner, params, pc, call, ans, done>>
InitParams(c) == /\ pc[c] = "absorb" /\ params = "empty" /\ params' = "ready"
                 /\ UNCHANGED <<cell, owner, tmpl, pc, call, loc, ans, done>>
Return(c) == /\ pc[c] = "absorb" /\ params = "ready" /\ Len(Mine(c).words) >= Len(call[c].words)
             /\ ans' = [ans EXCEPT ![c] = Mine(c)] /\ pc' = [pc EXCEPT ![c] = "idle"]
             /\ done' = [done EXCEPT ![c] = @ + 1]
             /\ UNCHANGED <<cell, owner, tmpl, params, call, loc>>
Step(c) == StartInit(c) \/ FinishInit(c) \/ Clone(c) \/ SetCap(c) \/ Absorb(c) \/ InitParams(c) \/ Return(c)
Next == \E c \in Clients : (\E a \in Calls : Invoke(c, a)) \/ Step(c)
Spec == Init /\ [][Next]_vars /\ \A c \in Clients : WF_vars(Step(c))

\* the answer of a finished call is determined by its arguments
Pure == \A c \in Clients : (pc[c] = "idle" /\ done[c] > 0) => ans[c] = [cap |-> call[c].cap, words |-> call[c].words]
Pristine == \A k \in Kinds : cell[k] = "ready" => tmpl[k] = Fresh
OneInit == \A k \in Kinds : (cell[k] = "busy") = (owner[k] # "none")
EveryCallReturns == \A c \in Clients : [](pc[c] # "idle" => <>(pc[c] = "idle"))
===============================================================================
