-------------------------------- MODULE RK --------------------------------
(* The Runge-Kutta recursion, its tangent and its adjoint, over Z_P.          *)
(*                                                                            *)
(* Stage model `o` (a record): k_j = C_j + W_j.z + sum_q c_q z_r1 z_r2        *)
(*    + sum_{l<j} L_jl k_l, with the stage input vector                       *)
(*      z = x \o acc \o <<t>> \o u \o <<h, a>>                                *)
(* where x is the state at the start of the step, acc the accumulated earlier *)
(* stage updates, t the stage time, u the time independent inputs, h the      *)
(* step size and a the diagonal entry of the tableau.  mask marks what the    *)
(* stage model has an input for.                                              *)
(*                                                                            *)
(* Tableau `tb`: s, A, b, c, bh (embedded weights; zeros if there are none).  *)
EXTENDS Zp

StageZ(o, x, acc, t, u, h, a) == VMul(x \o acc \o <<t>> \o u \o <<h, a>>, o.mask)

RECURSIVE QuadTo(_, _, _)
QuadTo(q, z, i) ==
  IF i = 0 THEN 0
  ELSE (QuadTo(q, z, i - 1) + ((q[i][3] * z[q[i][1]]) % P) * z[q[i][2]]) % P

RECURSIVE KTo(_, _, _)
KTo(o, z, j) ==
  IF j = 0 THEN << >>
  ELSE LET k == KTo(o, z, j - 1)
       IN Append(k, (o.C[j] + Dot(o.W[j], z) + QuadTo(o.Q[j], z, Len(o.Q[j]))
                      + DotTo(o.L[j], k, j - 1)) % P)
K(o, z) == KTo(o, z, o.n)

(* gradient of row j of the stage model w.r.t. z *)
RECURSIVE QGrad(_, _, _, _)
QGrad(q, z, g, i) ==
  IF i = 0 THEN g
  ELSE LET g1 == [g EXCEPT ![q[i][1]] = (@ + q[i][3] * z[q[i][2]]) % P]
           g2 == [g1 EXCEPT ![q[i][2]] = (@ + q[i][3] * z[q[i][1]]) % P]
       IN QGrad(q, z, g2, i - 1)
JRow(o, j, z) == QGrad(o.Q[j], z, o.W[j], Len(o.Q[j]))

(* tangent of the stage model *)
RECURSIVE DKTo(_, _, _, _)
DKTo(o, z, dz, j) ==
  IF j = 0 THEN << >>
  ELSE LET dk == DKTo(o, z, dz, j - 1)
       IN Append(dk, (Dot(JRow(o, j, z), dz) + DotTo(o.L[j], dk, j - 1)) % P)
DK(o, z, dz) == DKTo(o, z, dz, o.n)

(* adjoint of the stage model: first the chain over outputs, then the inputs *)
RECURSIVE BChain(_, _, _)
BChain(o, bk, j) ==
  IF j <= 1 THEN bk
  ELSE BChain(o, TLCEval([l \in 1..o.n |-> IF l < j THEN (bk[l] + o.L[j][l] * bk[j]) % P
                                           ELSE bk[l]]), j - 1)
BZ(o, z, bk) ==
  LET bc == BChain(o, bk, o.n)
  IN Comb(bc, TLCEval([j \in 1..o.n |-> JRow(o, j, z)]), Len(z))

---------------------------------------------------------------------------
(* one step *)
RECURSIVE StagesTo(_, _, _, _, _, _, _)
StagesTo(o, tb, x, t, u, h, i) ==
  IF i = 0 THEN [K |-> << >>, Z |-> << >>, T |-> << >>]
  ELSE LET r   == StagesTo(o, tb, x, t, u, h, i - 1)
           acc == CombTo(tb.A[i], r.K, o.n, i - 1)
           ti  == (t + h * tb.c[i]) % P
           z   == StageZ(o, x, acc, ti, u, h, tb.A[i][i])
       IN [K |-> Append(r.K, K(o, z)), Z |-> Append(r.Z, z), T |-> Append(r.T, ti)]

Step(o, tb, u, x, t, h) ==
  LET r  == TLCEval(StagesTo(o, tb, x, t, u, h, tb.s))
      x1 == VAxpy(h, Comb(tb.b, r.K, o.n), x)
      xe == VAxpy(h, Comb(tb.bh, r.K, o.n), x)
  IN [K |-> r.K, Z |-> r.Z, T |-> r.T, x0 |-> x, t0 |-> t, h |-> h,
      x1 |-> x1, t1 |-> (t + h) % P, xe |-> xe,
      er |-> TLCEval([i \in 1..o.n |-> (x1[i] - xe[i]) % P])]

(* tangent of one step around the step record `st` *)
RECURSIVE DStagesTo(_, _, _, _, _, _, _)
DStagesTo(o, tb, st, dx, dt, du, i) ==
  IF i = 0 THEN << >>
  ELSE LET dK == DStagesTo(o, tb, st, dx, dt, du, i - 1)
           dz == StageZ(o, dx, CombTo(tb.A[i], dK, o.n, i - 1), dt, du, 0, 0)
       IN Append(dK, DK(o, st.Z[i], dz))
DStep(o, tb, st, dx, dt, du) ==
  LET dK == TLCEval(DStagesTo(o, tb, st, dx, dt, du, tb.s))
  IN [dK |-> dK, x |-> VAxpy(st.h, Comb(tb.b, dK, o.n), dx), t |-> dt]

(* adjoint of one step *)
RECURSIVE BStages(_, _, _, _, _)
BStages(o, tb, st, r, i) ==    \* r: [bK, x, t, u]
  IF i = 0 THEN r
  ELSE LET bz == VMul(BZ(o, st.Z[i], r.bK[i]), o.mask)
           n == o.n
           ba == SubSeq(bz, n + 1, 2 * n)
           r1 == [bK |-> TLCEval([j \in 1..tb.s |-> IF j < i /\ tb.A[i][j] # 0
                                             THEN VAxpy(tb.A[i][j], ba, r.bK[j])
                                             ELSE r.bK[j]]),
                  x |-> VAdd(r.x, SubSeq(bz, 1, n)),
                  t |-> (r.t + bz[2 * n + 1]) % P,
                  u |-> VAdd(r.u, SubSeq(bz, 2 * n + 2, 2 * n + 1 + o.m))]
       IN BStages(o, tb, st, TLCEval(r1), i - 1)
BStep(o, tb, st, bx, bt, bu) ==
  BStages(o, tb, st,
    [bK |-> TLCEval([i \in 1..tb.s |-> VScale((st.h * tb.b[i]) % P, bx)]),
     x |-> bx, t |-> bt, u |-> bu], tb.s)

---------------------------------------------------------------------------
(* whole integration with the sequence of step sizes hs *)
RECURSIVE RunTo(_, _, _, _, _, _, _)
RunTo(o, tb, u, x, t, hs, k) ==
  IF k = 0 THEN << >>
  ELSE LET r == RunTo(o, tb, u, x, t, hs, k - 1)
           xk == IF k = 1 THEN x ELSE r[k - 1].x1
           tk == IF k = 1 THEN t ELSE r[k - 1].t1
       IN Append(r, Step(o, tb, u, xk, tk, hs[k]))
Run(o, tb, u, x, t, hs) == TLCEval(RunTo(o, tb, u, x, t, hs, Len(hs)))

FinalX(run, x) == IF run = << >> THEN x ELSE run[Len(run)].x1
FinalT(run, t) == IF run = << >> THEN t ELSE run[Len(run)].t1

RECURSIVE FwdTo(_, _, _, _, _, _, _)
FwdTo(o, tb, run, dx, dt, du, k) ==
  IF k = 0 THEN [x |-> dx, t |-> dt]
  ELSE LET r == FwdTo(o, tb, run, dx, dt, du, k - 1)
           d == DStep(o, tb, run[k], r.x, r.t, du)
       IN [x |-> d.x, t |-> d.t]
Fwd(o, tb, run, dx, du, dt) == TLCEval(FwdTo(o, tb, run, dx, dt, du, Len(run)))

RECURSIVE RevFrom(_, _, _, _, _)
RevFrom(o, tb, run, r, k) ==
  IF k = 0 THEN [x |-> r.x, t |-> r.t, u |-> r.u]
  ELSE RevFrom(o, tb, run, BStep(o, tb, run[k], r.x, r.t, r.u), k - 1)
Rev(o, tb, run, bx, bt) ==
  TLCEval(RevFrom(o, tb, run, [x |-> bx, t |-> bt, u |-> VZero(o.m)], Len(run)))
===========================================================================
