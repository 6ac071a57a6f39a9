----------------------------- MODULE TraceCkpt -----------------------------
(* Reverse sweeps of one checkpointing scheme, compared with the scheme that  *)
(* stores everything.  T.data[k] is the token of the data of step k (state,   *)
(* time and stage values, step size) in the reference run, T.ref the tokens   *)
(* of its results.  State: number of the step linearized last.                *)
EXTENDS TraceBase
VARIABLES phase, k
vars == <<tr, l, phase, k>>
Init == tr \in 1..Len(Traces) /\ l = 1 /\ phase = "idle" /\ k = 0
Begin == /\ Op("begin") /\ phase' = E.what
         /\ k' = (IF E.what = "rev" THEN T.N + 1 ELSE 0)
         /\ Advance
(* a reverse callback: `b`efore opens the next step below, `a`fter closes it *)
Cb == /\ Op("cb")
      /\ Clause("rev-outside-of-sweep", phase = "rev")
      /\ IF E.w = "b"
         THEN /\ Clause("rev-order", E.k = k - 1) /\ k' = E.k
         ELSE /\ Clause("rev-order", E.k = k) /\ UNCHANGED k
      /\ Clause("rev-data", E.k \in 1..T.N /\ E.s = T.data[E.k])
      /\ UNCHANGED phase /\ Advance
End == /\ Op("end")
       /\ Clause("differs-from-all-" \o phase, E.raised = 0 => E.got = T.ref[E.i])
       /\ Clause("raised-" \o phase, E.raised = 0 \/ (T.scheme = "none" /\ phase = "rev"))
       /\ Clause("none-reverse-accepted", (T.scheme = "none" /\ phase = "rev") => E.raised = 1)
       /\ Clause("rev-incomplete", (phase = "rev" /\ E.raised = 0) => k = 1)
       /\ phase' = "idle" /\ UNCHANGED k /\ Advance
Next == \/ Begin \/ Cb \/ End
        \/ (Crash /\ UNCHANGED <<phase, k>> /\ Advance)
        \/ (Finish /\ UNCHANGED <<phase, k>>)
Spec == Init /\ [][Next]_vars
===========================================================================
