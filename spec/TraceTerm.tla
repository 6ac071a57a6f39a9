----------------------------- MODULE TraceTerm -----------------------------
(* When integrations go on and when they end.  Times are given by their rank  *)
(* among all times of the trace (T.tend included), which preserves order.     *)
(* T.N: prescribed number of steps (-1: end time instead, -2: a criterion of  *)
(* the user, which is asked before every step and decides by what it sees).   *)
EXTENDS TraceBase
VARIABLES mode, n, t, open, x, ans
vars == <<tr, l, mode, n, t, open, x, ans>>
Init == tr \in 1..Len(Traces) /\ l = 1 /\ mode = "idle" /\ n = 0 /\ t = 0 /\ open = FALSE
        /\ x = 0 /\ ans = -1
(* ans: what the user's criterion said about the present state, -1 if not asked *)
Done == IF T.N >= 0 THEN n >= T.N ELSE IF T.N = -2 THEN ans = 1 ELSE t >= T.tend
Begin == /\ Op("begin") /\ mode' = E.what /\ n' = (IF E.what = "rev" THEN n ELSE 0)
         /\ t' = (IF E.what = "rev" THEN t ELSE T.t0) /\ open' = FALSE
         /\ x' = (IF E.what = "rev" THEN x ELSE 0)
         /\ ans' = (IF E.what = "rev" THEN ans ELSE -1) /\ Advance
Ask == /\ Op("ask")
       /\ Clause("criterion-sees-accepted-steps", ~open /\ E.k = n /\ E.t = t /\ E.x = x)
       /\ Clause("criterion-asked-again", ans = -1)
       /\ ans' = E.ans /\ UNCHANGED <<mode, n, t, open, x>> /\ Advance
(* a step is begun only if the criterion does not hold yet *)
Before == /\ Op("before")
          /\ Clause("step-after-the-end", ~Done)
          /\ Clause("step-number", E.k = n + 1)
          /\ Clause("criterion-not-asked", T.N # -2 \/ ans = 0)
          /\ Clause("step-from-elsewhere", E.t = t /\ E.x = x)
          /\ open' = TRUE /\ ans' = -1 /\ UNCHANGED <<mode, n, t, x>> /\ Advance
After == /\ Op("after")
         /\ Clause("step-number", open /\ E.k = n + 1)
         /\ n' = n + 1 /\ t' = E.t /\ open' = FALSE /\ x' = E.x
         /\ UNCHANGED <<mode, ans>> /\ Advance
End == /\ Op("end")
       /\ Clause("stopped-early", Done)
       /\ Clause("final-time", E.t = t)
       /\ Clause("beyond-the-end", T.hit = 0 \/ E.near = 1)
       /\ mode' = "idle" /\ UNCHANGED <<n, t, open, x, ans>> /\ Advance
(* reverse products go over the same number of steps *)
RevStep == /\ Op("revstep")
           /\ Clause("reverse-steps", E.count = n)
           /\ mode' = "idle" /\ UNCHANGED <<n, t, open, x, ans>> /\ Advance
(* an error ends it: only with adaptive steps *)
Raised == /\ Op("raised")
          /\ Clause("raised", T.adaptive = 1 /\ E.kind = 1)
          /\ mode' = "idle" /\ UNCHANGED <<n, t, open, x, ans>> /\ Advance
Endless == /\ Op("endless") /\ Clause("endless-repetition", FALSE)
           /\ mode' = "idle" /\ UNCHANGED <<n, t, open, x, ans>> /\ Advance
Next == Begin \/ Ask \/ Before \/ After \/ End \/ RevStep \/ Raised \/ Endless
        \/ (Crash /\ UNCHANGED <<mode, n, t, open, x, ans>> /\ Advance)
        \/ (Finish /\ UNCHANGED <<mode, n, t, open, x, ans>>)
Spec == Init /\ [][Next]_vars
===========================================================================
