------------------------------ MODULE TraceTab -----------------------------
(* Tableaux: what is accepted, warned about, how they are classified, split   *)
(* into main and embedded part, refused by the integrator, and the order      *)
(* conditions of the shipped ones.                                            *)
EXTENDS TraceBase, Trees, Fixed
vars == <<tr, l>>
Init == tr \in 1..Len(Traces) /\ l = 1
RECURSIVE Sum(_)
Sum(v) == IF v = << >> THEN 0 ELSE v[1] + Sum(Tail(v))
---------------------------------------------------------------------------
(* shapes: E.rows, E.cols, E.nb, E.nc (-1: not given), E.nh (-1: not embedded)*)
WellShaped == /\ E.rows = E.cols /\ E.nb = E.rows
              /\ E.nc \in {-1, E.rows} /\ E.nh \in {-1, E.rows}
Shape == /\ Op("shape") /\ Clause("shape", (E.built = 1) = WellShaped) /\ Advance
---------------------------------------------------------------------------
(* values: E.A, E.b, E.c (<< >>: not given) in units of 2^-10; E.nz: which    *)
(* entries of the matrix are not zero (some are too small for these units)    *)
S == Len(E.b)
Explicit == \A i, j \in 1..S : i <= j => E.nz[i][j] = 0
Diagonal == ~Explicit /\ \A i, j \in 1..S : i < j => E.nz[i][j] = 0
WeightsOff == Sum(E.b) # 1024
TimesOff == E.c # << >> /\ \E i \in 1..S : Sum(E.A[i]) # E.c[i]
Make == /\ Op("make")
        /\ Clause("accepted", E.built = 1)
        /\ Clause("warned", (E.warned > 0) = (WeightsOff \/ TimesOff))
        /\ Clause("warned-twice", WeightsOff /\ TimesOff => E.warned >= 2)
        /\ Clause("stages", E.stages = S /\ E.len = S)
        /\ Clause("classified", E.cls = <<IF Explicit THEN 1 ELSE 0, IF Diagonal THEN 1 ELSE 0,
                                          IF Explicit \/ Diagonal THEN 0 ELSE 1>>)
        /\ Clause("times", E.cc = IF E.c = << >> THEN [i \in 1..S |-> Sum(E.A[i])] ELSE E.c)
        /\ Clause("order", E.p = E.porig)
        /\ Clause("kept", E.same = 1)
        /\ Advance
(* the integrator built from this tableau: E.refused, E.evals: evaluations    *)
(* of the stage model                                                         *)
Refuse == /\ Op("refuse")
          /\ Clause("refused", (E.refused = 1) = ~(Explicit \/ Diagonal))
          /\ Clause("not-integrated", (E.refused = 1) => E.evals = 0)
          /\ Advance
(* E.bh: embedded weights; E.main, E.emb: records [A, b, c, p, emb]           *)
Split == /\ Op("split")
         /\ Clause("main", E.main = [A |-> E.A, b |-> E.b, c |-> E.c, p |-> E.porig, emb |-> 0])
         /\ Clause("embedded", E.emb = [A |-> E.A, b |-> E.bh, c |-> E.c, p |-> E.phat, emb |-> 0])
         /\ Clause("is-embedded", E.isemb = 1)
         /\ Clause("weights", E.own = <<E.b, E.bh>>)
         /\ Clause("orders", E.ps = <<E.porig, E.phat, IF E.porig < E.phat THEN E.porig ELSE E.phat>>)
         /\ Advance
---------------------------------------------------------------------------
(* order conditions: E.FA, E.Fb, E.Fh, E.Fc: fixed point numbers              *)
N == Len(E.Fb)
(* all coefficients but those of two schemes are given to 12 digits or better *)
Fits(x) == IsSmall(x, IF E.weak > 1 /\ N = 4 THEN 32 ELSE 2)
AV(v) == TLCEval([i \in 1..N |-> FDot(E.FA[i], v)])
RECURSIVE Prod(_, _, _), PhiTo(_)
Prod(t, ap, v) == IF t = << >> THEN v
                  ELSE Prod(Tail(t), ap, TLCEval([i \in 1..N |-> Mul(v[i], ap[t[1]][i])]))
Ones == [i \in 1..N |-> OfInt(1)]
(* phi: elementary weights of the stages per tree; ap: those times A          *)
PhiTo(k) == IF k = 0 THEN [phi |-> << >>, ap |-> << >>]
            ELSE LET r == PhiTo(k - 1)
                     v == TLCEval(Prod(TreeOf[k], r.ap, Ones))
                 IN TLCEval([phi |-> Append(r.phi, v), ap |-> Append(r.ap, AV(v))])
Meets(w, phi, p) == \A i \in 1..NTrees(p) :
                      Fits(Sub(Scale(Density[i], FDot(w, phi[i])), OfInt(1)))
(* weak stage order q: b.A^j.(A c^(k-1) - c^k / k) = 0 for k = 1..q, j < N    *)
RECURSIVE Pow(_), Residuals(_, _)
Pow(k) == IF k = 0 THEN Ones ELSE LET v == Pow(k - 1) IN TLCEval([i \in 1..N |-> Mul(v[i], E.Fc[i])])
Residuals(v, j) == IF j = 0 THEN <<v>> ELSE LET r == Residuals(v, j - 1) IN Append(r, AV(r[Len(r)]))
Tau(k) == LET a == AV(Pow(k - 1))  c == Pow(k)
          IN TLCEval([i \in 1..N |-> Sub(Scale(k, a[i]), c[i])])
WeakStage(q) == \A k \in 1..q : \A j \in 1..N : Fits(FDot(E.Fb, Residuals(Tau(k), N - 1)[j]))
MaxP == IF E.p > E.phat THEN E.p ELSE E.phat
Order == /\ Op("order")
         /\ LET r == PhiTo(NTrees(MaxP))
            IN /\ Clause("order-of-main", Meets(E.Fb, r.phi, E.p))
               /\ Clause("order-of-embedded", E.phat > 0 => Meets(E.Fh, r.phi, E.phat))
         /\ Clause("row-sums", LET one == AV(Ones) IN \A i \in 1..N : Fits(Sub(one[i], E.Fc[i])))
         /\ Clause("weak-stage-order", WeakStage(E.weak))
         (* what its name states: stages, kind of diagonal, order; 0: nothing *)
         /\ Clause("named-stages", E.nstages > 0 => N = E.nstages)
         /\ Clause("named-order", E.norder > 0 => E.p = E.norder)
         /\ Clause("named-kind",
              LET d == [i \in 1..N |-> E.FA[i][i]]
              IN CASE E.kind = "sdirk" -> \A i \in 1..N : d[i] = d[1] /\ d[i] # Zero
                   [] E.kind = "esdirk" -> d[1] = Zero /\ \A i \in 2..N : Fits(Sub(d[i], d[2])) /\ d[i] # Zero
                   [] E.kind = "explicit" -> \A i \in 1..N : \A j \in i..N : E.FA[i][j] = Zero
                   [] OTHER -> TRUE)
         /\ Clause("named-embedded", E.nemb = 1 <=> E.phat > 0)
         /\ Advance
Next == Shape \/ Make \/ Refuse \/ Split \/ Order \/ (Crash /\ Advance) \/ Finish
Spec == Init /\ [][Next]_vars
===========================================================================
