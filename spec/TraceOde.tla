------------------------------ MODULE TraceOde ------------------------------
(* The shipped ODEs: their stages, tangents, adjoints, products of single     *)
(* components, and their solutions.  All values are fixed point numbers.      *)
EXTENDS TraceBase, Odes
vars == <<tr, l>>
Init == tr \in 1..Len(Traces) /\ l = 1
(* E.tol: 0: to 2^-31, otherwise within E.tol * 2^-24 (nonlinear solvers) *)
Eq(x, y) == IF E.tol = 0 THEN Same(x, y) ELSE Close(x, y, E.tol)
V(i) == Value(E.y[i], E.acc[i], E.k[i], E.h, E.a)
---------------------------------------------------------------------------
(* a stage: E.ode, E.par, E.t, E.h, E.a, E.y, E.acc, E.k (per quantity), and  *)
(* for kaps the stage values E.v; "kaps1", "kaps2": one component alone, the  *)
(* other stage value is the input E.in                                        *)
Stage ==
  /\ Op("stage")
  /\ CASE E.ode = "lin" -> Clause("linear-stage", Eq(E.k[1], LinF(V(1))))
       [] E.ode = "pr" -> Clause("prothero-robinson-stage", Eq(E.k[1], PrF(E.par, V(1), E.t)))
       [] E.ode = "kaps" ->
            /\ Clause("kaps-value", Eq(E.v[1], V(1)) /\ Eq(E.v[2], V(2)))
            /\ Clause("kaps-stage-1", Eq(Mul(E.par, E.k[1]), K1F(E.par, E.v[1], E.v[2])))
            /\ Clause("kaps-stage-2", Eq(E.k[2], K2F(E.v[1], E.v[2])))
       [] E.ode = "kaps1" ->
            /\ Clause("kaps-value", Eq(E.v[1], V(1)))
            /\ Clause("kaps-stage-1", Eq(Mul(E.par, E.k[1]), K1F(E.par, E.v[1], E.in)))
       [] E.ode = "kaps2" ->
            /\ Clause("kaps-value", Eq(E.v[1], V(1)))
            /\ Clause("kaps-stage-2", Eq(E.k[1], K2F(E.in, E.v[1])))
            /\ Clause("kaps-branch", Branch(E.h, E.a, E.v[1]))
  /\ Advance
(* a tangent in the direction E.y, E.acc, E.t with result E.k, at the         *)
(* stage time E.at and for kaps the stage values E.v                          *)
Tangent ==
  /\ Op("tangent")
  /\ CASE E.ode = "lin" -> Clause("linear-tangent", Eq(E.k[1], LinF(V(1))))
       [] E.ode = "pr" -> Clause("prothero-robinson-tangent",
                                 Eq(E.k[1], PrD(E.par, E.at, V(1), E.t)))
       [] E.ode = "kaps" ->
            /\ Clause("kaps-tangent-1", Eq(Mul(E.par, E.k[1]), K1D(E.par, E.v[2], V(1), V(2))))
            /\ Clause("kaps-tangent-2", Eq(E.k[2], K2D(E.v[2], V(1), V(2))))
  /\ Advance
Adjoint == Op("adjoint") /\ Clause("adjoint-is-transpose", Eq(FDot(E.b, E.k), FDot(E.g, E.d)))
           /\ Advance
---------------------------------------------------------------------------
(* a product of an explicit component: d: values of y, acc, t before,         *)
(* r: after; s: which are in scope, s[4]: the output; o: output               *)
(* the (undivided) coefficients of y, acc, t and the divisor                  *)
On(s, x) == IF s = 1 THEN x ELSE Zero
Coef == LET f == IF E.ode = "lin" THEN OfInt(-1) ELSE E.par
        IN <<f, Mul(f, E.h),
             IF E.ode = "lin" THEN Zero ELSE PrD(E.par, E.at, Zero, OfInt(1))>>
Div == LET f == IF E.ode = "lin" THEN OfInt(-1) ELSE E.par
       IN Sub(OfInt(1), Mul(f, Mul(E.h, E.a)))
Prod ==
  /\ Op("prod")
  /\ LET cf == TLCEval(Coef)  n == Len(E.d0) IN
     IF E.mode = "fwd"
     THEN /\ Clause("product-keeps-seeds", E.d1 = E.d0)
          /\ Clause("forward-product",
                    Eq(Mul(Div, Sub(E.o1, E.o0)),
                       On(E.s[4], FDot(SubSeq(cf, 1, n), [i \in 1..n |-> On(E.s[i], E.d0[i])]))))
     ELSE /\ Clause("product-keeps-seeds", E.o1 = E.o0)
          /\ \A i \in 1..n : Clause("reverse-product",
               Eq(Mul(Div, Sub(E.d1[i], E.d0[i])), On(E.s[i], On(E.s[4], Mul(cf[i], E.o0)))))
  /\ Advance
---------------------------------------------------------------------------
(* an implicit component, quadratic in its variables.  E.jac[r][v]: residuals *)
(* at u + d_v minus those at u - d_v, so twice the derivative in direction    *)
(* d_v; variables: inputs, then outputs; E.d: the directions                  *)
NR == Len(E.jac)
NV == Len(E.d)
Twice(x) == Scale(2, x)
RECURSIVE FSum(_)
FSum(x) == IF x = << >> THEN Zero ELSE Add(x[1], FSum(Tail(x)))
(* E.mode: forward: residuals E.r0 before, E.r1 after; E.sv, E.sr: scope *)
Apply ==
  /\ Op("apply")
  /\ IF E.mode = "fwd"
     THEN /\ Clause("product-keeps-seeds", E.d1 = E.d)
          /\ \A r \in 1..NR : Clause("implicit-forward",
               Eq(Twice(Sub(E.r1[r], E.r0[r])),
                  On(E.sr[r], FSum([v \in 1..NV |-> On(E.sv[v], E.jac[r][v])]))))
     ELSE \* E.d: directions of the differences, E.p0, E.p1: contents of variables
          /\ Clause("product-keeps-seeds", E.r1 = E.r0)
          /\ \A v \in 1..NV : Clause("implicit-reverse",
               Eq(Twice(Mul(E.d[v], Sub(E.p1[v], E.p0[v]))),
                  On(E.sv[v], FSum([r \in 1..NR |-> On(E.sr[r], Mul(E.r0[r], E.jac[r][v]))]))))
  /\ Advance
(* solving with right hand side E.r and multiplying again *)
Solve == /\ Op("solve") /\ \A r \in 1..Len(E.r) :
            Clause(IF E.mode = "fwd" THEN "implicit-solve" ELSE "implicit-reverse-solve",
                   Eq(E.r[r], E.back[r]))
         /\ Advance
(* residuals at the result of the nonlinear solve *)
Zeros == Op("zeros") /\ \A r \in 1..Len(E.r) : Clause("residuals-vanish", Eq(E.r[r], Zero))
         /\ Advance
---------------------------------------------------------------------------
(* solutions: E.y0: initial values at E.t0, E.x: values at E.t *)
Solution ==
  /\ Op("solution")
  /\ LET d == Sub(E.t, E.t0) IN
     CASE E.ode = "lin" -> Clause("linear-solution", Eq(E.x[1], LinS(E.y0[1], d)))
       [] E.ode = "pr" -> Clause("prothero-robinson-solution",
                                 Eq(E.x[1], PrS(E.par, E.y0[1], E.t0, E.t)))
       [] E.ode = "kaps" /\ d = Zero -> Clause("kaps-initial-values", \A i \in 1..2 : Eq(E.x[i], E.y0[i]))
       [] OTHER -> LET s == KapsS(E.y0[2], d)
                   IN /\ Clause("on-the-manifold", Same(E.y0[1], Mul(E.y0[2], E.y0[2])))
                      /\ Clause("kaps-solution", \A i \in 1..2 : Eq(E.x[i], s[i]))
  /\ Advance
(* the documented initial values *)
Start == /\ Op("start")
         /\ CASE E.ode = "pr" -> Clause("prothero-robinson-start", Len(E.x) = 1 /\ Eq(E.x[1], Root))
              [] E.ode = "kaps" -> Clause("kaps-start", Len(E.x) = 2 /\ Eq(E.x[1], OfInt(1)) /\ Eq(E.x[2], OfInt(1)))
         /\ Advance
(* phi and its derivative *)
Func == /\ Op("func")
        /\ Clause("phi", Eq(E.phi, Phi(E.t)) /\ Eq(E.dphi, DPhi(E.t))) /\ Advance
Next == \/ Stage \/ Tangent \/ Adjoint \/ Prod \/ Apply \/ Solve \/ Zeros
        \/ Solution \/ Start \/ Func
        \/ (Crash /\ Advance) \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
