----------------------------- MODULE TraceIso ------------------------------
(* Recorded interleavings of operations on integrators sharing user objects,  *)
(* replayed from Isolate.  T.fresh[i][j] holds the tokens of the results of   *)
(* integrator i at input j when used alone with objects of its own; T.objs    *)
(* the token of the shared objects as the user made them.                     *)
EXTENDS TraceBase
VARIABLE inp
vars == <<tr, l, inp>>
Init == tr \in 1..Len(Traces) /\ l = 1 /\ inp = <<1, 1, 1>>
Kept == /\ Clause("user-objects-modified", E.objs = T.objs)
        /\ Clause("inputs-or-seeds-modified", E.args = 0)
Setup == Op("S") /\ Clause("setup-failed", E.raised = 0) /\ Kept /\ UNCHANGED inp /\ Advance
Set == Op("X") /\ inp' = [inp EXCEPT ![E.i] = 3 - @] /\ Advance
Good == /\ More /\ E.op \in {"R", "F", "B"} /\ E.raised = 0
        /\ Clause("differs-from-solo-" \o E.op, E.got = T.fresh[E.i][inp[E.i]][E.op])
        /\ Kept /\ UNCHANGED inp /\ Advance
Raised == /\ More /\ E.op \in {"R", "F", "B"} /\ E.raised # 0
          /\ Clause("unexpected-exception", E.raised = 1)
          /\ Kept /\ UNCHANGED inp /\ Advance
Next == Setup \/ Set \/ Good \/ Raised \/ (Crash /\ UNCHANGED inp /\ Advance)
        \/ (Finish /\ UNCHANGED inp)
Spec == Init /\ [][Next]_vars
===========================================================================
