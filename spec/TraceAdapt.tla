---------------------------- MODULE TraceAdapt -----------------------------
(* Recorded adaptive integrations: every trial with what the stage model, the *)
(* error measure and the controller saw.  State: the integration between      *)
(* accepted steps, the pending suggestion and the state of the controllers.   *)
(* All data over Z_P, step sizes additionally as logarithms if T.real = 1     *)
(* (controllers of the package, specified by Control).                        *)
EXTENDS RK, Control, TraceBase
VARIABLES inp, x, t, run, sugg, lsugg, eh, sh, leh, lsh, sts, mode
vars == <<tr, l, inp, x, t, run, sugg, lsugg, eh, sh, leh, lsh, sts, mode>>

Init == /\ tr \in 1..Len(Traces) /\ l = 1 /\ inp = << >> /\ x = << >> /\ t = 0
        /\ run = << >> /\ sugg = 0 /\ lsugg = 0 /\ eh = << >> /\ sh = << >>
        /\ leh = << >> /\ lsh = << >> /\ sts = {} /\ mode = "idle"
Data == <<x, t, run, sugg, lsugg, eh, sh, leh, lsh, sts>>

RECURSIVE Merge(_, _)
Merge(s, i) == IF i = 0 THEN << >>
               ELSE LET m == Merge(s, i - 1)
                    IN IF i > 1 /\ s[i] = s[i - 1] THEN m ELSE Append(m, s[i])

SetInputs == /\ Op("set") /\ inp' = [x |-> E.x, u |-> E.u, t |-> E.t]
             /\ UNCHANGED <<x, t, run, sugg, lsugg, eh, sh, leh, lsh, sts, mode>> /\ Advance
(* every operation starts afresh *)
Begin == /\ Op("begin")
         \* controllers work with the lower order of the embedded pair
         /\ Clause("controller-order", \A i \in DOMAIN T.ps : T.ps[i] = T.p)
         /\ IF E.what = "rev" THEN UNCHANGED Data
            ELSE /\ x' = inp.x /\ t' = inp.t /\ run' = << >>
                 \* a first step beyond the end time is shortened to hit it
                 /\ sugg' = (IF E.short = 1 THEN (T.tend - inp.t) % P ELSE T.h0)
                 /\ lsugg' = T.lh0
                 /\ eh' = <<T.tol, T.tol>> /\ sh' = <<0, 0>>
                 /\ leh' = <<T.cf.lt, T.cf.lt>> /\ lsh' = <<Big, Big>>
                 /\ sts' = {Fresh(T.nctl)}
         /\ mode' = E.what /\ UNCHANGED inp /\ Advance

R == [le |-> E.lm, lh |-> lsugg, e0 |-> leh[1], e1 |-> leh[2], s0 |-> lsh[1], s1 |-> lsh[2],
      ur |-> E.ur, urh |-> E.urh]
Ks == TLCEval([i \in 1..T.nctl |-> Coef("direct", T.p, T.g[i])])
Outcomes == UNION { Chain(Ks, T.cf, R, T.p, s) : s \in sts }
Match(o) == ~o.err /\ o.acc = (E.acc = 1) /\ (o.sug.v = E.us \/ Close(o.sug.v, E.us))

Trial ==
  /\ Op("trial")
  /\ LET st == Step(T.o, T.tb, inp.u, x, t, sugg)
         os == IF T.real = 1 THEN TLCEval(Outcomes) ELSE {}
         ms == {o \in os : Match(o)}
     IN
     /\ Clause("trial-in-no-operation", mode \in {"run", "fwd"})
     /\ Clause("trial-size", E.dt = sugg)
     /\ Clause("trial-start", "ev" \notin DOMAIN E \/ E.ev = Merge(st.Z, Len(st.Z)))
     /\ Clause("trial-error-estimate", E.er = st.er)
     /\ Clause("trial-state", E.xs = st.x1)
     /\ Clause("controller-error", E.ma = E.m)
     /\ Clause("controller-error-history", E.eh = eh)
     /\ Clause("controller-step-history", E.sh = sh)
     /\ Clause("controller-remaining", E.rem = IF T.tend = -1 THEN -1 ELSE (T.tend - st.t1) % P)
     /\ Clause("controller-verdict", T.real = 0 \/ ms # {})
     /\ sugg' = E.sg /\ lsugg' = E.lsg
     /\ sts' = IF T.real = 1 THEN {o.st : o \in IF ms = {} THEN os ELSE ms} ELSE sts
     /\ IF E.acc = 1
        THEN /\ x' = st.x1 /\ t' = st.t1 /\ run' = Append(run, st)
             /\ eh' = <<E.m, eh[1]>> /\ sh' = <<sugg, sh[1]>>
             /\ leh' = <<E.lm, leh[1]>> /\ lsh' = <<lsugg, lsh[1]>>
        ELSE UNCHANGED <<x, t, run, eh, sh, leh, lsh>>
  /\ UNCHANGED <<inp, mode>> /\ Advance
(* what callbacks see after a step: only accepted data *)
After ==
  /\ Op("after")
  /\ LET k == Len(run) IN
     /\ Clause("step-count", E.k = k)
     /\ Clause("step-data", k >= 1 /\ E.x0 = run[k].x0 /\ E.x1 = x /\ E.t0 = run[k].t0
                             /\ E.t1 = t /\ E.K = run[k].K)
     /\ Clause("histories", E.sh = sh /\ E.eh = eh /\ E.sg = sugg)
  /\ UNCHANGED <<inp, mode>> /\ UNCHANGED Data /\ Advance
Before ==
  /\ Op("before")
  /\ Clause("step-count", E.k = Len(run) + 1)
  /\ Clause("state-before", E.x1 = x /\ E.t1 = t)
  /\ Clause("histories", E.sh = sh /\ E.eh = eh /\ E.sg = sugg)
  /\ UNCHANGED <<inp, mode>> /\ UNCHANGED Data /\ Advance
EndRun ==
  /\ Op("endrun")
  /\ Clause("run-result", E.x = x /\ E.t = t)
  /\ Clause("number-of-steps", T.N = -1 \/ Len(run) = T.N)
  /\ mode' = "idle" /\ UNCHANGED inp /\ UNCHANGED Data /\ Advance
EndFwd ==
  /\ Op("endfwd")
  /\ Clause("number-of-steps", T.N = -1 \/ Len(run) = T.N)
  /\ LET f == Fwd(T.o, T.tb, run, E.dx, E.du, E.dt)
     IN Clause("fwd-result", E.x = f.x /\ E.t = f.t)
  /\ mode' = "idle" /\ UNCHANGED inp /\ UNCHANGED Data /\ Advance
EndRev ==
  /\ Op("endrev")
  /\ LET r == Rev(T.o, T.tb, run, E.bx, E.bt)
     IN Clause("rev-result", E.x = r.x /\ E.u = r.u /\ E.t = r.t)
  /\ mode' = "idle" /\ UNCHANGED inp /\ UNCHANGED Data /\ Advance
(* the package's chain gave up: only if it had to *)
GaveUp ==
  /\ Op("gaveup")
  /\ Clause("controller-error-raised", T.real = 1 /\ \E o \in Outcomes : o.err)
  /\ mode' = "idle" /\ UNCHANGED inp /\ UNCHANGED Data /\ Advance
Next == \/ SetInputs \/ Begin \/ Trial \/ After \/ Before \/ EndRun \/ EndFwd \/ EndRev
        \/ GaveUp
        \/ (Crash /\ UNCHANGED <<inp, mode>> /\ UNCHANGED Data /\ Advance)
        \/ (Finish /\ UNCHANGED <<inp, mode>> /\ UNCHANGED Data)
Spec == Init /\ [][Next]_vars
===========================================================================
