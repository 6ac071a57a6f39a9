------------------------------- MODULE MC_RK -------------------------------
(* Design check of RK: on random stage models and tableaux over a small field *)
(* and ALL sequences of step sizes up to length N,                            *)
(*  - Tangent:  the forward operator is the derivative.  Over Z_{P^2},        *)
(*      F(x + P d) = F(x) + P * DF(x) d, so running the *primal* recursion    *)
(*      with lifted inputs yields the derivative without any tangent code.    *)
(*  - Duality:  <w, Fwd(d)> = <Rev(w), d>.                                    *)
(*  - Split:    integrating hs1 \o hs2 = integrating hs2 from the end of hs1. *)
EXTENDS RK
CONSTANTS NInst, NSteps, MaxN, MaxM, MaxS
Big == INSTANCE RK WITH P <- P * P

Rnd(S) == RandomElement(S)
RVec(n, S) == TLCEval([i \in 1..n |-> Rnd(S)])
F == 0..(P - 1)

ROde(n, m) ==
  LET nz == 2 * n + m + 3
      mask == TLCEval([i \in 1..nz |-> IF i > 2 * n + 1 \/ Rnd(1..4) > 1 THEN 1 ELSE 0])
      W == TLCEval([j \in 1..n |-> TLCEval([i \in 1..nz |-> Rnd(F) * mask[i]])])
      Q == TLCEval([j \in 1..n |-> TLCEval([q \in 1..2 |->
             <<Rnd(1..nz), Rnd(1..nz), Rnd(F)>>])])
      L == TLCEval([j \in 1..n |-> TLCEval([l \in 1..n |-> IF l < j THEN Rnd(F) ELSE 0])])
  IN [n |-> n, m |-> m, W |-> W, Q |-> Q, C |-> RVec(n, F), L |-> L, mask |-> mask]

RTab(s) ==
  [s |-> s,
   A |-> TLCEval([i \in 1..s |-> TLCEval([j \in 1..s |-> IF j <= i THEN Rnd(F) ELSE 0])]),
   b |-> RVec(s, F), c |-> RVec(s, F), bh |-> RVec(s, F)]

RInst(i) ==
  LET n == Rnd(1..MaxN)
      m == Rnd(0..MaxM)
  IN [id |-> i, o |-> ROde(n, m), tb |-> RTab(Rnd(1..MaxS)),
      x |-> RVec(n, F), u |-> RVec(m, F), t |-> Rnd(F),
      dx |-> RVec(n, F), du |-> RVec(m, F), dt |-> Rnd(F),
      bx |-> RVec(n, F), bt |-> Rnd(F)]

VARIABLES inst, hs
Init == /\ \E i \in 1..NInst : inst = TLCEval(RInst(i))
        /\ hs = << >>
Next == /\ Len(hs) < NSteps
        /\ \E h \in 1..(P - 1) : hs' = Append(hs, h)
        /\ UNCHANGED inst
Spec == Init /\ [][Next]_<<inst, hs>>

PlainRun == Run(inst.o, inst.tb, inst.u, inst.x, inst.t, hs)
PP == P * P
Lift(v, d) == TLCEval([i \in 1..Len(v) |-> (v[i] + P * d[i]) % PP])

Tangent ==
  LET o == inst.o
      base == Big!Run(o, inst.tb, inst.u, inst.x, inst.t, hs)
      lift == Big!Run(o, inst.tb, Lift(inst.u, inst.du), Lift(inst.x, inst.dx),
                      (inst.t + P * inst.dt) % PP, hs)
      f == Fwd(o, inst.tb, PlainRun, inst.dx, inst.du, inst.dt)
      bx == Big!FinalX(base, inst.x)
      lx == Big!FinalX(lift, Lift(inst.x, inst.dx))
  IN /\ \A i \in 1..o.n : (lx[i] - bx[i]) % PP = (P * f.x[i]) % PP
     /\ (Big!FinalT(lift, (inst.t + P * inst.dt) % PP) - Big!FinalT(base, inst.t)) % PP
           = (P * f.t) % PP

Duality ==
  LET run == PlainRun
      f == Fwd(inst.o, inst.tb, run, inst.dx, inst.du, inst.dt)
      r == Rev(inst.o, inst.tb, run, inst.bx, inst.bt)
  IN (Dot(inst.bx, f.x) + inst.bt * f.t) % P
       = (Dot(r.x, inst.dx) + Dot(r.u, inst.du) + r.t * inst.dt) % P

Split ==
  \A k \in 0..Len(hs) :
    LET r1 == Run(inst.o, inst.tb, inst.u, inst.x, inst.t, SubSeq(hs, 1, k))
        r2 == Run(inst.o, inst.tb, inst.u, FinalX(r1, inst.x), FinalT(r1, inst.t),
                  SubSeq(hs, k + 1, Len(hs)))
        r == PlainRun
    IN r1 \o r2 = r
===========================================================================
