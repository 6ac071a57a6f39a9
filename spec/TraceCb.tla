------------------------------ MODULE TraceCb ------------------------------
(* What callbacks are told.  Every event of an operation is one call of one   *)
(* callback; T.nc callbacks are registered per kind of operation.  State: the *)
(* call seen last, the number of the step (completed in runs and forward      *)
(* products, linearized last in reverse ones).                                *)
EXTENDS RK, TraceBase
VARIABLES inp, run, mode, last, n, nev
vars == <<tr, l, inp, run, mode, last, n, nev>>
NoCall == [m |-> "none", w |-> "after", k |-> 0, id |-> 0]
Init == /\ tr \in 1..Len(Traces) /\ l = 1 /\ inp = << >> /\ run = << >> /\ mode = "idle"
        /\ last = NoCall /\ n = 0 /\ nev = 0

SetInputs == /\ Op("set") /\ inp' = [x |-> E.x, u |-> E.u, t |-> E.t]
             /\ run' = Run(T.o, T.tb, E.u, E.x, E.t, TLCEval([k \in 1..T.N |-> T.h]))
             /\ UNCHANGED <<mode, last, n, nev>> /\ Advance
Begin == /\ Op("begin") /\ mode' = E.what /\ last' = NoCall
         /\ n' = (IF E.what = "rev" THEN T.N + 1 ELSE 0) /\ nev' = 0
         /\ UNCHANGED <<inp, run>> /\ Advance

GroupEnd == last.id = T.nc - 1 \/ last.m = "none"
(* the calls that may come next, apart from the number of a newly begun step *)
Continues == IF ~GroupEnd THEN E.m = last.m /\ E.w = last.w /\ E.k = last.k /\ E.id = last.id + 1
             ELSE E.id = 0 /\ IF last.w = "before"
                              THEN E.m = last.m /\ E.w = "after" /\ E.k = last.k
                              ELSE E.w = "before"
NewStep == GroupEnd /\ E.w = "before" /\ E.id = 0
NumberOk == CASE E.m = "rev" -> E.k = n - 1
              [] mode = "rev" -> TRUE      \* recomputed step
              [] OTHER -> E.k = n + 1
KindOk == E.m = mode \/ (mode = "rev" /\ E.m = "run")

Hist(k) == <<run[k].h, IF k > 1 THEN run[k - 1].h ELSE 0>>
Prev(k) == IF k = 1 THEN [x |-> inp.x, t |-> inp.t] ELSE [x |-> run[k - 1].x1, t |-> run[k - 1].t1]
StepData(k) ==
  /\ E.x0 = run[k].x0 /\ E.x1 = run[k].x1 /\ E.t0 = run[k].t0 /\ E.t1 = run[k].t1
  /\ E.K = run[k].K /\ E.T = run[k].T /\ E.u = inp.u
  /\ E.emb = IF T.tb.emb = 1 THEN run[k].xe \o run[k].er ELSE << >>
PrevHist(k) == IF k = 1 THEN <<0, 0>> ELSE Hist(k - 1)

Cb == /\ Op("cb")
      /\ Clause("callback-kind", KindOk)
      /\ Clause("callback-order", Continues)
      /\ Clause("step-number", E.k \in 1..T.N /\ (NewStep => NumberOk))
      /\ IF E.k \notin 1..T.N THEN TRUE
         ELSE IF E.m = "rev"
         THEN /\ Clause("reverse-data", StepData(E.k))
              /\ Clause("reverse-histories", E.sh = Hist(E.k))
         ELSE IF E.w = "before"
         THEN /\ Clause("state-before", E.x1 = Prev(E.k).x /\ E.t1 = Prev(E.k).t /\ E.u = inp.u)
              /\ Clause("histories-before", E.sh = PrevHist(E.k))
         ELSE /\ Clause("data-after", StepData(E.k))
              /\ Clause("histories-after", E.sh = Hist(E.k))
      (* no stage evaluations between steps, some within *)
      /\ Clause("not-around-the-step",
                IF E.m = "rev" \/ ~GroupEnd THEN TRUE
                ELSE IF E.w = "before" THEN E.nev = nev \/ mode = "rev" ELSE E.nev > nev)
      /\ last' = [m |-> E.m, w |-> E.w, k |-> E.k, id |-> E.id]
      /\ n' = (IF E.m = "rev" THEN E.k ELSE IF mode = "rev" THEN n
               ELSE IF E.w = "after" THEN E.k ELSE n)
      /\ nev' = E.nev
      /\ UNCHANGED <<inp, run, mode>> /\ Advance
End == /\ Op("end")
       /\ Clause("callbacks-missing", T.nc = 0 \/
            (GroupEnd /\ last.w = "after" /\ n = IF mode = "rev" THEN 1 ELSE T.N))
       /\ mode' = "idle" /\ UNCHANGED <<inp, run, last, n, nev>> /\ Advance
Next == \/ SetInputs \/ Begin \/ Cb \/ End
        \/ (Crash /\ UNCHANGED <<inp, run, mode, last, n, nev>> /\ Advance)
        \/ (Finish /\ UNCHANGED <<inp, run, mode, last, n, nev>>)
Spec == Init /\ [][Next]_vars
===========================================================================
