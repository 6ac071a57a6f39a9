------------------------------ MODULE TraceNorm ----------------------------
(* Norms of states and the measures built from them.                          *)
(* A norm event: E.kind of order: "p" (E.m, E.k: order m/k, entries are k-th  *)
(* powers of the integers E.a, up to sign), "inf", "ninf", "zero" (entries    *)
(* E.a / 2^E.sh); E.part: quantities as <<lo, hi, excluded>> into E.a;        *)
(* E.r: the returned norm as fixed point number (E.nan: not a number).        *)
EXTENDS TraceBase, Fixed
vars == <<tr, l>>
Init == tr \in 1..Len(Traces) /\ l = 1
Abs(v) == IF v < 0 THEN -v ELSE v
RECURSIVE IPow(_, _), FPow(_, _)
IPow(v, n) == IF n = 0 THEN 1 ELSE v * IPow(v, n - 1)
FPow(x, n) == IF n = 1 THEN x ELSE Mul(FPow(x, n - 1), x)
(* relative comparison: |x - y| <= y / 2^36                                   *)
Shift3(y) == [i \in 1..NL |-> IF i + 3 <= NL THEN y[i + 3] ELSE 0]
RECURSIVE LessEqFrom(_, _, _)
LessEqFrom(x, y, i) == IF i = 0 THEN TRUE ELSE IF x[i] # y[i] THEN x[i] < y[i] ELSE LessEqFrom(x, y, i - 1)
LessEq(x, y) == LessEqFrom(x, y, NL)
FAbs(x) == IF x[NL] < 0 THEN Sub(Zero, x) ELSE x
Near(x, y) == LessEq(FAbs(Sub(x, y)), Shift3(y))
---------------------------------------------------------------------------
(* the concatenation of what is not excluded *)
RECURSIVE Cat(_)
Cat(p) == IF p = << >> THEN << >>
          ELSE (IF p[1][3] = 0 THEN SubSeq(E.a, p[1][1], p[1][2]) ELSE << >>) \o Cat(Tail(p))
RECURSIVE SumPow(_, _), MaxAbs(_), MinAbs(_), NonZero(_)
SumPow(v, n) == IF v = << >> THEN 0 ELSE IPow(Abs(v[1]), n) + SumPow(Tail(v), n)
MaxAbs(v) == IF v = << >> THEN 0 ELSE LET r == MaxAbs(Tail(v)) IN IF Abs(v[1]) > r THEN Abs(v[1]) ELSE r
MinAbs(v) == IF Len(v) = 1 THEN Abs(v[1])
             ELSE LET r == MinAbs(Tail(v)) IN IF Abs(v[1]) < r THEN Abs(v[1]) ELSE r
NonZero(v) == IF v = << >> THEN 0 ELSE (IF v[1] # 0 THEN 1 ELSE 0) + NonZero(Tail(v))
Norm1 ==
  /\ Op("norm")
  /\ LET v == Cat(E.part)
     IN Clause("norm",
          /\ E.nan = 0
          /\ CASE E.kind = "p" -> Near(FPow(E.r, E.m), OfInt(IPow(SumPow(v, E.m), E.k)))
               [] E.kind = "inf" -> E.r = OfInt(MaxAbs(v))
               [] E.kind = "ninf" -> E.r = OfInt(MinAbs(v))
               [] E.kind = "zero" -> E.r = OfInt(NonZero(v)))
  /\ Clause("state-kept", E.kept = 1)
  /\ Advance
(* a state with an entry that is not a number has no finite norm of any order *)
(* but zero, for which such an entry counts                                   *)
Nan == /\ Op("nan") /\ Clause("not-a-number", E.nan = 1) /\ Advance
(* measures: E.re, E.rs: norms of error estimate and state; the ratio of the  *)
(* tolerances is E.num / E.den                                                *)
Measure ==
  /\ Op("measure")
  /\ IF E.which = "simple" THEN Clause("simple-measure", E.r = E.re)
     ELSE Clause("relative-measure",
            Near(Mul(E.r, Add(Scale(E.den, E.rs), OfInt(E.num))), Scale(E.den, E.re)))
  /\ Advance
Next == Norm1 \/ Nan \/ Measure \/ (Crash /\ Advance) \/ Finish
Spec == Init /\ [][Next]_vars
===========================================================================
