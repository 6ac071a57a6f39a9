------------------------------ MODULE TraceRK ------------------------------
(* Recorded runs and products of the integrator against RK.  The state is the *)
(* point at which the integrator is evaluated and the run it determines.      *)
EXTENDS RK, TraceBase
VARIABLES inp, run
vars == <<tr, l, inp, run>>

Init == tr \in 1..Len(Traces) /\ l = 1 /\ inp = << >> /\ run = << >>

Hs == IF "hs" \in DOMAIN E THEN E.hs ELSE [k \in 1..T.N |-> T.h]

RECURSIVE ZsTo(_, _)
ZsTo(r, k) == IF k = 0 THEN << >> ELSE ZsTo(r, k - 1) \o r[k].Z
RECURSIVE Merge(_, _)
Merge(s, i) == IF i = 0 THEN << >>
               ELSE LET m == Merge(s, i - 1)
                    IN IF i > 1 /\ s[i] = s[i - 1] THEN m ELSE Append(m, s[i])
Evals(r) == LET z == TLCEval(ZsTo(r, Len(r))) IN Merge(z, Len(z))

SetInputs == /\ Op("set")
             /\ inp' = [x |-> E.x, u |-> E.u, t |-> E.t]
             /\ run' = << >>
             /\ Advance
RunModel ==
  /\ Op("run")
  /\ LET r == Run(T.o, T.tb, inp.u, inp.x, inp.t, TLCEval(Hs))
     IN /\ Clause("run-state", E.x = FinalX(r, inp.x))
        /\ Clause("run-time", E.t = FinalT(r, inp.t))
        /\ Clause("run-stage-inputs", "evs" \in DOMAIN E \/ E.ev = Evals(r))
        /\ run' = r
  /\ UNCHANGED inp /\ Advance
Forward ==
  /\ Op("fwd")
  /\ LET f == Fwd(T.o, T.tb, run, E.dx, E.du, E.dt)
     IN /\ Clause("fwd-state", E.x = f.x)
        /\ Clause("fwd-time", E.t = f.t)
  /\ UNCHANGED <<inp, run>> /\ Advance
Reverse ==
  /\ Op("rev")
  /\ LET r == Rev(T.o, T.tb, run, E.bx, E.bt)
     IN /\ Clause("rev-state", E.x = r.x)
        /\ Clause("rev-params", E.u = r.u)
        /\ Clause("rev-time", E.t = r.t)
  /\ UNCHANGED <<inp, run>> /\ Advance
Next == \/ SetInputs \/ RunModel \/ Forward \/ Reverse
        \/ (Crash /\ UNCHANGED <<inp, run>> /\ Advance)
        \/ (Finish /\ UNCHANGED <<inp, run>>)
Spec == Init /\ [][Next]_vars
===========================================================================
