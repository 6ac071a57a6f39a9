---------------------------- MODULE TraceReport ----------------------------
(* What the callbacks shipped for reporting print.  An event is one call of   *)
(* the two callbacks around a step: "logged" by the logging one, "clocked" by *)
(* the measuring one.  State: the operation, the step, and whether it runs.   *)
(* Times are in units of 100 ns since the begin of the operation; a step took *)
(* at least from the return of the measuring callback before it (E.lo) and at *)
(* most from its call (E.hi), as measured around these calls.                 *)
EXTENDS TraceBase, Integers
VARIABLES mode, k, running
vars == <<tr, l, mode, k, running>>
Init == tr \in 1..Len(Traces) /\ l = 1 /\ mode = "idle" /\ k = 0 /\ running = FALSE
Begin == /\ Op("begin") /\ mode' = E.what /\ running' = FALSE
         /\ k' = (IF E.what = "rev" THEN T.N + 1 ELSE 0) /\ Advance
NextStep == IF mode = "rev" THEN k - 1 ELSE k + 1
(* steps recomputed for a reverse product belong to the run *)
Again == mode = "rev" /\ E.given = T.names[1]
Around == /\ Op("around")
          /\ Clause("report-of-step", E.logged = <<E.w, E.k, E.given>>)
          /\ Clause("report-order",
                    Again \/ ((E.w = "before") = ~running
                              /\ E.k = IF E.w = "before" THEN NextStep ELSE k))
          /\ Clause("operation", Again \/ E.given = T.names[CASE mode = "run" -> 1
                                           [] mode = "fwd" -> 2 [] mode = "rev" -> 3])
          /\ Clause("time-reported-once", Len(E.clocked) = (IF E.w = "after" THEN 1 ELSE 0))
          /\ Clause("time-reported",
                    \A i \in 1..Len(E.clocked) : E.lo <= E.clocked[i] /\ E.clocked[i] <= E.hi)
          /\ IF Again THEN UNCHANGED <<k, running>>
             ELSE k' = E.k /\ running' = (E.w = "before")
          /\ UNCHANGED mode /\ Advance
End == /\ Op("end")
       /\ Clause("steps-reported", ~running /\ k = (IF mode = "rev" THEN 1 ELSE T.N))
       /\ mode' = "idle" /\ UNCHANGED <<k, running>> /\ Advance
Next == Begin \/ Around \/ End \/ (Crash /\ UNCHANGED <<mode, k, running>> /\ Advance)
        \/ (Finish /\ UNCHANGED <<mode, k, running>>)
Spec == Init /\ [][Next]_vars
===========================================================================
