---------------------------- MODULE TraceScheme ----------------------------
(* The functions of a discretization scheme, used directly with any ODE: its  *)
(* stage update is the map K of RK, its stage state S = x + h (acc + a k) and *)
(* its independent outputs a linear map G of the stage input.  Several lanes  *)
(* (ODE and states) may share one scheme object.  A lane holds the point of   *)
(* the primal, all steps made so far, and the tangent and adjoint points.     *)
EXTENDS RK, TraceBase
VARIABLES lane
vars == <<tr, l, lane>>

Fresh == [x |-> << >>, t |-> 0, u |-> << >>, steps |-> << >>, d |-> << >>, b |-> << >>]
Init == tr \in 1..Len(Traces) /\ l = 1
        /\ lane = [i \in 1..Len(Traces[tr].lanes) |-> Fresh]

C == T.lanes[E.lane]       \* configuration: o, tb, G
Me == lane[E.lane]
Upd(r) == lane' = [lane EXCEPT ![E.lane] = r]

StageState(z, k, n) ==
  LET h == z[Len(z) - 1] a == z[Len(z)]
  IN VAxpy(h, VAxpy(a, k, SubSeq(z, n + 1, 2 * n)), SubSeq(z, 1, n))
LinMap(G, z) == TLCEval([j \in 1..Len(G) |-> Dot(G[j], z)])

Start == /\ Op("start")
         /\ Clause("start-takes-values", E.x1 = E.x /\ E.t1 = E.t /\ E.u1 = E.u)
         /\ Upd([Fresh EXCEPT !.x = E.x, !.t = E.t, !.u = E.u])
         /\ Advance
StepOp ==
  /\ Op("step")
  /\ LET s == Step(C.o, C.tb, Me.u, Me.x, Me.t, E.h)
     IN /\ Clause("step-stages", E.K = s.K /\ E.T = s.T)
        /\ Clause("step-stage-states",
                  \A i \in 1..C.tb.s : E.S[i] = StageState(s.Z[i], s.K[i], C.o.n))
        /\ Clause("step-independent-outputs",
                  \A i \in 1..C.tb.s : E.G[i] = LinMap(C.G, s.Z[i]))
        /\ Clause("step-start", E.x0 = s.x0 /\ E.t0 = s.t0)
        /\ Clause("step-final", E.x1 = s.x1 /\ E.t1 = s.t1 /\ E.u1 = Me.u)
        /\ Clause("step-size", E.h1 = E.h)
        /\ Clause("step-embedded", C.tb.emb = 1 => E.xe = s.xe /\ E.er = s.er)
        /\ Upd([Me EXCEPT !.x = s.x1, !.t = s.t1, !.steps = Append(@, s)])
  /\ Advance
Fin == /\ Op("fin")
       /\ Clause("finalization", E.x = Me.x /\ E.t = Me.t)
       /\ UNCHANGED lane /\ Advance

DStart == /\ Op("dstart")
          /\ Clause("start-tangent", E.x1 = E.x /\ E.t1 = E.t /\ E.u1 = E.u)
          /\ Upd([Me EXCEPT !.d = [x |-> E.x, t |-> E.t, u |-> E.u]])
          /\ Advance
DStepOp ==
  /\ Op("dstep")
  /\ LET st == Me.steps[E.k]
         r  == DStep(C.o, C.tb, st, Me.d.x, Me.d.t, Me.d.u)
         dz(i) == TLCEval(Me.d.x \o CombTo(C.tb.A[i], r.dK, C.o.n, i - 1)
                          \o <<Me.d.t>> \o Me.d.u \o <<0, 0>>)
         ds(i) == VAxpy(st.h, VAxpy(C.tb.A[i][i], r.dK[i],
                                    CombTo(C.tb.A[i], r.dK, C.o.n, i - 1)), Me.d.x)
     IN /\ Clause("tangent-stages", E.K = r.dK)
        /\ Clause("tangent-stage-states", \A i \in 1..C.tb.s : E.S[i] = ds(i))
        /\ Clause("tangent-independent-outputs",
                  \A i \in 1..C.tb.s : E.G[i] = LinMap(C.G, dz(i)))
        /\ Clause("tangent-final", E.x1 = r.x /\ E.t1 = r.t /\ E.u1 = Me.d.u)
        /\ Upd([Me EXCEPT !.d = [x |-> r.x, t |-> r.t, u |-> Me.d.u]])
  /\ Advance
DFin == /\ Op("dfin")
        /\ Clause("finalization-tangent", E.x = Me.d.x /\ E.t = Me.d.t)
        /\ UNCHANGED lane /\ Advance

(* a reverse sweep starts from the adjoint of the finalization, or from a     *)
(* state that was seeded by hand                                              *)
BFin == /\ Op("bfin")
        /\ Clause("finalization-adjoint",
                  E.x1 = E.x /\ E.t1 = E.t /\ E.u1 = VZero(C.o.m))
        /\ Upd([Me EXCEPT !.b = [x |-> E.x, t |-> E.t, u |-> VZero(C.o.m)]])
        /\ Advance
BStepOp ==
  /\ Op("bstep")
  /\ LET r == BStep(C.o, C.tb, Me.steps[E.k], Me.b.x, Me.b.t, Me.b.u)
     IN /\ Clause("adjoint-state", E.x1 = r.x)
        /\ Clause("adjoint-time", E.t1 = r.t)
        /\ Clause("adjoint-inputs", E.u1 = r.u)
        /\ Upd([Me EXCEPT !.b = [x |-> r.x, t |-> r.t, u |-> r.u]])
  /\ Advance
BStart == /\ Op("bstart")
          /\ Clause("start-adjoint", E.x = Me.b.x /\ E.t = Me.b.t /\ E.u = Me.b.u)
          /\ UNCHANGED lane /\ Advance

Next == \/ Start \/ StepOp \/ Fin \/ DStart \/ DStepOp \/ DFin \/ BFin \/ BStepOp
        \/ BStart \/ (Crash /\ UNCHANGED lane /\ Advance)
        \/ (Finish /\ UNCHANGED lane)
Spec == Init /\ [][Next]_vars
=============================================================================
