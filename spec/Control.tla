------------------------------ MODULE Control ------------------------------
(* Step size control.  Positive quantities are represented by their base-2    *)
(* logarithm in quarters ("lq"), so that the law, a product of powers, is an  *)
(* integer linear combination.  Results are in units of 1/(16 D), D below.    *)
(*                                                                            *)
(* A trial is a record                                                        *)
(*   le, lh          error measure and step size (le = -Big: error zero)      *)
(*   e0, e1          error measures of the last two accepted steps            *)
(*   s0, s1          their step sizes (Big: there is none)                    *)
(*   ur, urh         remaining time after the trial, and before it (that is,  *)
(*                   with the step added), as logarithms in units; -Big if    *)
(*                   not positive, Big if unlimited                           *)
(* A configuration: lt tolerance, lb, ub bounds (-Big / Big: none),           *)
(*   usf safety factor (in units), max: permitted consecutive rejections.     *)
EXTENDS Integers, Sequences
Big == 1000000000
Abs(a) == IF a < 0 THEN -a ELSE a
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

D(p) == 360 * p * (p + 1)
(* n/d divided by p, and n/d, in units of 1/D *)
Cp(n, d, p) == ((360 * n) \div d) * (p + 1)
Cn(n, d, p) == ((360 * n) \div d) * p * (p + 1)
Z(al, be, ga, a, b) == [al |-> al, be |-> be, ga |-> ga, a |-> a, b |-> b]
(* exponents (times D) of the named controllers; g: free parameters in eighths *)
Coef(name, p, g) ==
  CASE name = "pseudo" -> Z(0, 0, 0, 0, 0)
    [] name \in {"integral", "h0_110"} -> Z(360 * p, 0, 0, 0, 0)
    [] name = "h_211" -> Z(Cp(1, 4, p), Cp(-1, 4, p), 0, Cn(-1, 4, p), 0)
    [] name = "h0_211" -> Z(Cp(1, 2, p), Cp(-1, 2, p), 0, Cn(-1, 2, p), 0)
    [] name \in {"pc", "h0_220"} -> Z(Cp(2, 1, p), Cp(1, 1, p), 0, Cn(1, 1, p), 0)
    [] name = "pid" -> Z(Cp(1, 18, p), Cp(-1, 9, p), Cp(1, 18, p), 0, 0)
    [] name = "h_312" -> Z(Cp(1, 8, p), Cp(-1, 4, p), Cp(1, 8, p), Cn(-3, 8, p), Cn(-1, 8, p))
    [] name = "h0_312" -> Z(Cp(1, 4, p), Cp(-1, 2, p), Cp(1, 4, p), Cn(-3, 4, p), Cn(-1, 4, p))
    [] name = "h_312_general" ->
         Z(Cp(g[1], 8, p), Cp(-2 * g[1], 8, p), Cp(g[1], 8, p), Cn(g[2], 8, p), Cn(g[3], 8, p))
    [] name = "ppid" -> Z(Cp(6, 20, p), Cp(-1, 20, p), Cp(-5, 20, p), Cn(1, 1, p), 0)
    [] name = "h_321" -> Z(Cp(1, 3, p), Cp(-1, 18, p), Cp(-5, 18, p), Cn(5, 6, p), Cn(1, 6, p))
    [] name = "h0_321" -> Z(Cp(5, 4, p), Cp(-1, 2, p), Cp(-3, 4, p), Cn(1, 4, p), Cn(3, 4, p))
    [] name = "h_321_general" ->
         Z(Cp(g[1], 8, p), Cp(g[2], 8, p), Cp(-(g[1] + g[2]), 8, p),
           Cn(g[3], 8, p), Cn(8 - g[3], 8, p))
    [] name = "h0_330" -> Z(Cp(3, 1, p), Cp(3, 1, p), Cp(1, 1, p), Cn(2, 1, p), Cn(-1, 1, p))
    [] name = "h_330_general" ->
         Z(Cp(g[1], 8, p), Cp(g[2], 8, p), Cp(g[3], 8, p), Cn(2, 1, p), Cn(-1, 1, p))
    [] name = "direct" ->  \* exponents given directly, in eighths
         Z(Cn(g[1], 8, p), Cn(g[2], 8, p), Cn(g[3], 8, p), Cn(g[4], 8, p), Cn(g[5], 8, p))

(* lq -> units *)
U(lq, p) == IF Abs(lq) = Big THEN lq ELSE 4 * D(p) * lq

Accepts(cf, r) == r.le <= cf.lt \/ r.lh <= cf.lb

Law(k, cf, r, p) ==
  IF r.le = -Big THEN U(r.lh, p)
  ELSE cf.usf + U(r.lh, p)
       + 4 * (k.al * (cf.lt - r.le) + k.be * (r.e0 - cf.lt) + k.ga * (cf.lt - r.e1)
              + (IF r.s0 = Big THEN 0 ELSE k.a * (r.lh - r.s0))
              + (IF r.s0 = Big \/ r.s1 = Big THEN 0 ELSE k.b * (r.s0 - r.s1)))
Limit(cf, r) == IF Accepts(cf, r) THEN r.ur ELSE r.urh
(* the law limited by the bounds and the end time; `ex` whether comparisons with it
   are certain (it is not the result of inexact powers) *)
Trivial(k, cf, r) == r.le = -Big \/ (cf.usf = 0 /\ k = Z(0, 0, 0, 0, 0))
Suggest(k, cf, r, p) ==
  LET w == Law(k, cf, r, p)
      v == Min2(Limit(cf, r), Max2(U(cf.lb, p), Min2(U(cf.ub, p), w)))
  IN [v |-> v, ex |-> v # w \/ Trivial(k, cf, r)]
Tol == 2
Close(a, b) == Abs(a - b) <= Tol
(* possible outcomes of "suggestion s is smaller than the step" *)
Smaller(s, r, p) == LET h == U(r.lh, p) IN
  IF ~s.ex /\ Close(s.v, h) THEN {TRUE, FALSE} ELSE {s.v < h}
Larger(s, r, p) == LET h == U(r.lh, p) IN
  IF ~s.ex /\ Close(s.v, h) THEN {TRUE, FALSE} ELSE {s.v > h}

(* ------------------------------------------------------------------------ *)
(* chain of controllers 1..n; st[i] for i >= 2: whether the controllers      *)
(* before i are in charge, and how many of their verdicts in a row rejected  *)
Fresh(n) == [i \in 1..n |-> [outer |-> TRUE, cnt |-> 0]]
RECURSIVE Call(_, _, _, _, _, _)
(* ks: exponents of the controllers; result: set of [sug, acc, st] *)
Call(ks, cf, r, p, st, i) ==
  LET own == Suggest(ks[i], cf, r, p)
      acc == Accepts(cf, r)
      Fall(s) == [sug |-> own, acc |-> acc,
                  st |-> IF acc THEN Fresh(Len(ks))
                         ELSE [s EXCEPT ![i] = [outer |-> FALSE, cnt |-> 0]]]
  IN IF i = 1 THEN {[sug |-> own, acc |-> acc, st |-> IF acc THEN Fresh(Len(ks)) ELSE st]}
     ELSE IF ~st[i].outer THEN {Fall(st)}
     ELSE UNION { IF o.acc THEN {o}
                  ELSE LET c == st[i].cnt + 1 IN
                    { IF sm /\ c <= cf.max
                      THEN [o EXCEPT !.st = [o.st EXCEPT ![i] = [outer |-> TRUE, cnt |-> c]]]
                      ELSE Fall(o.st) : sm \in Smaller(o.sug, r, p) }
                  : o \in Call(ks, cf, r, p, st, i - 1) }
(* outcomes of the whole chain; `err`: it gives up *)
Chain(ks, cf, r, p, st) ==
  UNION { { [sug |-> o.sug, acc |-> o.acc, st |-> o.st, err |-> ~o.acc /\ lg]
            : lg \in Larger(o.sug, r, p) } : o \in Call(ks, cf, r, p, st, Len(ks)) }
===========================================================================
