----------------------------- MODULE TraceFile -----------------------------
(* Contents of result files and what the reading functions return.            *)
(* State: the trajectory of the latest run that wrote the file (computed by   *)
(* the recursion from inputs and accepted step sizes), its error measures.    *)
(* T.q: quantities (name, shape, first and last index in the state),          *)
(* T.period: write period.                                                    *)
EXTENDS RK, TraceBase
VARIABLES inp, run, es
vars == <<tr, l, inp, run, es>>
Init == tr \in 1..Len(Traces) /\ l = 1 /\ inp = << >> /\ run = << >> /\ es = << >>

SetInputs == /\ Op("set") /\ inp' = [x |-> E.x, u |-> E.u, t |-> E.t]
             /\ UNCHANGED <<run, es>> /\ Advance
(* E.w: this operation integrates anew, and thereby writes the file anew *)
DoRun == /\ Op("run") /\ run' = Run(T.o, T.tb, inp.u, inp.x, inp.t, E.hs) /\ es' = E.es
         /\ UNCHANGED inp /\ Advance

Keys == {0} \cup {k \in 1..Len(run) : k % T.period = 0}
XAt(k) == IF k = 0 THEN inp.x ELSE run[k].x1
TAt(k) == IF k = 0 THEN inp.t ELSE run[k].t1
EAt(k) == IF k = 0 THEN 0 ELSE es[k]
Part(k, i) == SubSeq(XAt(k), T.q[i].lo, T.q[i].hi)
Known(k) == k = 0 \/ k \in 1..Len(run)
Measured(k) == k = 0 \/ es # << >>

GroupOk(g) ==
  /\ Clause("time", g.t = <<TAt(g.k)>>)
  /\ Clause("quantities", {g.q[i].name : i \in 1..Len(g.q)} = {T.q[i].name : i \in 1..Len(T.q)})
  /\ \A i \in 1..Len(T.q) : \A j \in 1..Len(g.q) :
       g.q[j].name = T.q[i].name =>
         /\ Clause("shape", g.q[j].shape = T.q[i].shape)
         /\ Clause("values", g.q[j].v = Part(g.k, i))
  /\ Clause("error-measure", IF T.tb.emb = 1
                             THEN Len(g.e) = 1 /\ (Measured(g.k) => g.e[1] = EAt(g.k))
                             ELSE g.e = << >>)
File == /\ Op("file")
        /\ Clause("groups", {E.g[i].k : i \in 1..Len(E.g)} = Keys /\ Len(E.g) = Cardinality(Keys))
        /\ \A i \in 1..Len(E.g) : Known(E.g[i].k) => GroupOk(E.g[i])
        /\ UNCHANGED <<inp, run, es>> /\ Advance

(* reading: E.names are indices into T.q; the supplied solution returned      *)
(* T.big + 8 * position for every entry                                       *)
ReadAt(r) ==
  /\ Clause("read-time", r.t = TAt(r.k))
  /\ \A i \in 1..Len(E.names) :
       /\ Clause("read-values", r.v[i] = Part(r.k, E.names[i]))
       /\ Clause("read-errors",
            r.e[i] = [j \in 1..Len(r.v[i]) |-> (T.big + 8 * i - Part(r.k, E.names[i])[j]) % P])
Initials == [i \in 1..Len(E.names) |-> Part(0, E.names[i])]
Read == /\ Op("read")
        /\ Clause("read-steps", {E.r[i].k : i \in 1..Len(E.r)} = Keys)
        /\ \A i \in 1..Len(E.r) : Known(E.r[i].k) => ReadAt(E.r[i])
        (* every call of the solution: stored time, stored initial values, initial time *)
        /\ Clause("solution-arguments",
             \A i \in 1..Len(E.calls) :
                /\ E.calls[i].t0 = inp.t
                /\ \E k \in Keys : E.calls[i].t = TAt(k)
                /\ IF Len(E.names) = 1 THEN E.calls[i].x = Initials[1]
                   ELSE E.calls[i].xs = Initials)
        /\ UNCHANGED <<inp, run, es>> /\ Advance
MaxKey == CHOOSE k \in Keys : \A j \in Keys : j <= k
Last == /\ Op("last")
        /\ Clause("read-last-error", Measured(MaxKey) => E.v = EAt(MaxKey))
        /\ UNCHANGED <<inp, run, es>> /\ Advance
Next == \/ SetInputs \/ DoRun \/ File \/ Read \/ Last
        \/ (Crash /\ UNCHANGED <<inp, run, es>> /\ Advance)
        \/ (Finish /\ UNCHANGED <<inp, run, es>>)
Spec == Init /\ [][Next]_vars
===========================================================================
