----------------------------- MODULE TraceDist -----------------------------
(* Integrations on several processes.  The specification is the sequential    *)
(* recursion over the values of all processes together; T.xm[r], T.um[r] are  *)
(* the indices of the entries that process r holds (distributed variables:    *)
(* its part, replicated ones: all).  After every operation every process must *)
(* hold exactly its entries of the sequential result.                         *)
EXTENDS RK, TraceBase
VARIABLES inp, run
vars == <<tr, l, inp, run>>
Init == tr \in 1..Len(Traces) /\ l = 1 /\ inp = << >> /\ run = << >>

Local(v, map) == [i \in 1..Len(map) |-> v[map[i]]]
Procs == 1..Len(T.xm)
Held(parts, v, maps) == LET w == TLCEval(v) IN \A r \in Procs : parts[r] = Local(w, maps[r])
Same(vals, v) == LET w == TLCEval(v) IN \A r \in Procs : vals[r] = w

Hs == IF "hs" \in DOMAIN E THEN E.hs[1] ELSE T.hs

SetInputs == /\ Op("set") /\ inp' = [x |-> E.x, u |-> E.u, t |-> E.t]
             /\ run' = << >> /\ Advance
RunModel ==
  /\ Op("run")
  /\ Clause("run-steps", "hs" \in DOMAIN E => \A r \in Procs : E.hs[r] = E.hs[1])
  /\ LET rn == TLCEval(Run(T.o, T.tb, inp.u, inp.x, inp.t, TLCEval(Hs)))
     IN /\ Clause("run-state", Held(E.xs, FinalX(rn, inp.x), T.xm))
        /\ Clause("run-time", Same(E.ts, FinalT(rn, inp.t)))
        /\ run' = rn
  /\ UNCHANGED inp /\ Advance
Forward ==
  /\ Op("fwd")
  /\ LET f == TLCEval(Fwd(T.o, T.tb, run, E.dx, E.du, E.dt))
     IN /\ Clause("fwd-state", Held(E.xs, f.x, T.xm))
        /\ Clause("fwd-time", Same(E.ts, f.t))
  /\ UNCHANGED <<inp, run>> /\ Advance
Reverse ==
  /\ Op("rev")
  /\ LET b == TLCEval(Rev(T.o, T.tb, run, E.bx, E.bt))
     IN /\ Clause("rev-state", Held(E.xs, b.x, T.xm))
        /\ Clause("rev-params", Held(E.us, b.u, T.um))
        /\ Clause("rev-time", Same(E.ts, b.t))
  /\ UNCHANGED <<inp, run>> /\ Advance
(* trials of adaptive steps: all processes measure and decide the same        *)
Trial == /\ Op("trial")
         /\ Clause("measure", \A r \in Procs : E.m[r] = E.m[1])
         /\ UNCHANGED <<inp, run>> /\ Advance

(* the result file, written by all processes, read by one                     *)
Keys == {0} \cup {k \in 1..Len(run) : k % T.period = 0}
XAt(k) == IF k = 0 THEN inp.x ELSE run[k].x1
TAt(k) == IF k = 0 THEN inp.t ELSE run[k].t1
GroupOk(g) ==
  /\ Clause("file-time", g.t = <<TAt(g.k)>>)
  /\ \A i \in 1..Len(T.q) : \A j \in 1..Len(g.q) :
       g.q[j].name = T.q[i].name =>
         Clause("file-values", g.q[j].shape = T.q[i].shape
                               /\ g.q[j].v = SubSeq(XAt(g.k), T.q[i].lo, T.q[i].hi))
File == /\ Op("file")
        /\ Clause("file-groups", {E.g[i].k : i \in 1..Len(E.g)} = Keys)
        /\ \A i \in 1..Len(E.g) : E.g[i].k \in Keys => GroupOk(E.g[i])
        /\ UNCHANGED <<inp, run>> /\ Advance
Next == \/ SetInputs \/ RunModel \/ Forward \/ Reverse \/ Trial \/ File
        \/ (Crash /\ UNCHANGED <<inp, run>> /\ Advance)
        \/ (Finish /\ UNCHANGED <<inp, run>>)
Spec == Init /\ [][Next]_vars
===========================================================================
