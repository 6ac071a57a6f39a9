-------------------------------- MODULE Odes --------------------------------
(* The differential equations shipped with the package, in fixed point:       *)
(*   linear    y' = -y                                                        *)
(*   pr        x' = lam (x - phi(t)) + phi'(t), phi(t) = sin(t + pi/4)        *)
(*   kaps      eps y1' = -(1 + 2 eps) y1 + y2^2,  y2' = y1 - y2 - y2^2        *)
(* and what a stage of a Runge-Kutta method with step size h and diagonal     *)
(* entry a makes of them: k = f(t, Y), Y = y + h (acc + a k).                 *)
EXTENDS Elementary
(* sin(t + pi/4) and its derivative *)
PhiOf(s, c) == Mul(Root, Add(s, c))
DPhiOf(s, c) == Mul(Root, Sub(c, s))
Phi(t) == PhiOf(Sin(t), Cos(t))
DPhi(t) == DPhiOf(Sin(t), Cos(t))
Value(y, acc, k, h, a) == Add(y, Mul(h, Add(acc, Mul(a, k))))
(* 1 + 2 eps *)
C2(eps) == Add(OfInt(1), Scale(2, eps))
(* the right hand sides, multiplied with eps for the first one of kaps *)
LinF(y) == Neg(y)
PrF(lam, x, t) == LET s == Sin(t)  c == Cos(t)
                  IN Add(Mul(lam, Sub(x, PhiOf(s, c))), DPhiOf(s, c))
K1F(eps, y1, y2) == Sub(Mul(y2, y2), Mul(C2(eps), y1))
K2F(y1, y2) == Sub(Sub(y1, y2), Mul(y2, y2))
(* their derivatives; kaps: at (y1, y2) in the direction (d1, d2) *)
PrD(lam, t, dx, dt) == LET s == Sin(t)  c == Cos(t)
  IN Sub(Mul(lam, dx), Mul(dt, Add(Mul(lam, DPhiOf(s, c)), PhiOf(s, c))))
K1D(eps, y2, d1, d2) == Sub(Scale(2, Mul(y2, d2)), Mul(C2(eps), d1))
K2D(y2, d1, d2) == Sub(d1, Add(d2, Scale(2, Mul(y2, d2))))
(* the stage of the second component of kaps is a quadratic equation; of the  *)
(* two solutions the one that exists for h a -> 0                             *)
Branch(h, a, Y2) == ~IsNeg(Add(Add(OfInt(1), Mul(Mul(h, a), Add(OfInt(1), Scale(2, Y2)))), Unit(FL - 2)))
(* solutions; the decay over a time d with rate r, which may be large *)
Decay(r, d) == LET z == Mul(r, d) IN IF Less(z, OfInt(-26)) THEN Zero ELSE Exp(z)
LinS(y0, d) == Mul(y0, Exp(Neg(d)))
PrS(lam, x0, t0, t) == Add(Phi(t), Mul(Sub(x0, Phi(t0)), Decay(lam, Sub(t, t0))))
(* on the slow manifold y1 = y2^2 *)
KapsS(y2, d) == <<Mul(Mul(y2, y2), Exp(Scale(-2, d))), Mul(y2, Exp(Neg(d)))>>
=============================================================================
