----------------------------- MODULE TraceOuter -----------------------------
(* Models that contain integrators as components.  The outputs of the whole   *)
(* model form one vector; T.free are the independent ones, and every node     *)
(* maps some entries of that vector to others: an algebraic component (kind   *)
(* "alg", the map K of its record o) or an integrator (kind "rk", the run of  *)
(* its stage model).  The model is solved iff every node maps its inputs to   *)
(* its outputs, and a total derivative is correct iff it has the given seed   *)
(* and every node maps its input part to its output part by its tangent.      *)
EXTENDS RK, TraceBase
VARIABLES val, runs, jac
vars == <<tr, l, val, runs, jac>>

Init == tr \in 1..Len(Traces) /\ l = 1 /\ val = << >> /\ runs = << >> /\ jac = << >>

Nodes == T.nodes
At(v, ix) == TLCEval([i \in 1..Len(ix) |-> v[ix[i]]])
RkIn(nd, v) == [x |-> At(v, nd.ix), u |-> At(v, nd.iu), t |-> v[nd.it]]

(* step sizes of an integrator: given, or as its controller chose them *)
Sizes(nd, hs) == IF nd.h # -1 THEN TLCEval([k \in 1..nd.N |-> nd.h]) ELSE hs
NodeRun(nd, v, hs) ==
  IF nd.kind = "rk"
  THEN LET i == RkIn(nd, v)
       IN Run(nd.o, nd.tb, i.u, i.x, i.t, Sizes(nd, hs))
  ELSE << >>
NodeOut(nd, v, r) ==
  IF nd.kind = "rk" THEN LET i == RkIn(nd, v) IN FinalX(r, i.x) \o <<FinalT(r, i.t)>>
  ELSE K(nd.o, At(v, nd.ix))
NodeTan(nd, v, r, d) ==
  IF nd.kind = "rk"
  THEN LET i == RkIn(nd, d)
           f == Fwd(nd.o, nd.tb, r, i.x, i.u, i.t)
       IN f.x \o <<f.t>>
  ELSE DK(nd.o, At(v, nd.ix), At(d, nd.ix))

Exact == "off" \notin DOMAIN E \/ E.off = 0

Values ==
  /\ Op("values")
  /\ Clause("converged", Exact)
  /\ Clause("independents", At(E.V, T.free) = E.free)
  /\ val' = E.V
  /\ runs' = TLCEval([k \in 1..Len(Nodes) |-> NodeRun(Nodes[k], E.V, E.hs[k])])
  /\ Clause("number-of-steps",
            \A k \in 1..Len(Nodes) : Nodes[k].kind = "rk" => Len(runs'[k]) = Nodes[k].N)
  /\ \A k \in 1..Len(Nodes) :
       Clause(IF Nodes[k].kind = "rk" THEN "run-in-model" ELSE "component-in-model",
              At(E.V, Nodes[k].out) = NodeOut(Nodes[k], E.V, runs'[k]))
  /\ UNCHANGED jac /\ Advance

Unit(n, j) == TLCEval([i \in 1..n |-> IF i = j THEN 1 ELSE 0])
Tangent(d) == \A k \in 1..Len(Nodes) :
                At(d, Nodes[k].out) = NodeTan(Nodes[k], val, runs[k], d)
Totals ==
  /\ Op("totals")
  /\ Clause("accuracy-of-totals-" \o E.mode, Exact)
  /\ Clause("totals-" \o E.mode,
            \A f \in 1..Len(T.free) :
              /\ At(E.J[f], T.free) = Unit(Len(T.free), f)
              /\ Tangent(E.J[f]))
  /\ jac' = E.J
  /\ UNCHANGED <<val, runs>> /\ Advance

(* products of the whole model, against the validated total derivatives *)
Jvp == /\ Op("jvp")
       /\ Clause("accuracy-of-product", Exact)
       /\ Clause("model-forward-product",
                 At(E.seed, T.free) = E.free /\ Tangent(E.seed))
       /\ UNCHANGED <<val, runs, jac>> /\ Advance
Vjp == /\ Op("vjp")
       /\ Clause("accuracy-of-product", Exact)
       /\ Clause("model-reverse-product",
                 \A f \in 1..Len(T.free) : E.res[f] = Dot(E.seed, jac[f]))
       /\ UNCHANGED <<val, runs, jac>> /\ Advance

(* a product asked from one integrator: d_inputs and d_outputs (with the      *)
(* times last) before and after, and which of their entries are in scope      *)
Part(nd, v) == [x |-> SubSeq(v, 1, nd.o.n), u |-> SubSeq(v, nd.o.n + 1, nd.o.n + nd.o.m),
                t |-> v[Len(v)]]
Prod ==
  /\ Op("prod")
  /\ LET nd == Nodes[E.node]
         r  == IF "at" \in DOMAIN E
               THEN Run(nd.o, nd.tb, E.at.u, E.at.x, E.at.t, Sizes(nd, E.at.hs))
               ELSE runs[E.node]
     IN IF E.mode = "fwd"
        THEN LET s == Part(nd, VMul(E.di0, E.si))
                 f == Fwd(nd.o, nd.tb, r, s.x, s.u, s.t)
             IN /\ Clause("forward-adds-to-outputs",
                          E.do1 = VAdd(E.do0, VMul(f.x \o <<f.t>>, E.so)))
                /\ Clause("forward-keeps-inputs", E.di1 = E.di0)
        ELSE LET s == Part(nd, VMul(E.do0, E.so))
                 b == SubSeq(VMul(E.do0, E.so), 1, nd.o.n)
                 g == Rev(nd.o, nd.tb, r, b, VMul(E.do0, E.so)[nd.o.n + 1])
             IN /\ Clause("reverse-adds-to-inputs",
                          E.di1 = VAdd(E.di0, VMul(g.x \o g.u \o <<g.t>>, E.si)))
                /\ Clause("reverse-keeps-outputs", E.do1 = E.do0)
  /\ UNCHANGED <<val, runs, jac>> /\ Advance

(* derivatives leave the values of the model alone *)
Kept == /\ Op("kept") /\ Clause("values-kept", E.V = val)
        /\ UNCHANGED <<val, runs, jac>> /\ Advance

Next == \/ Kept \/ Values \/ Totals \/ Jvp \/ Vjp \/ Prod
        \/ (Crash /\ UNCHANGED <<val, runs, jac>> /\ Advance)
        \/ (Finish /\ UNCHANGED <<val, runs, jac>>)
Spec == Init /\ [][Next]_vars
=============================================================================
