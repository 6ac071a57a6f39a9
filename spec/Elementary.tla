----------------------------- MODULE Elementary -----------------------------
(* exp, sin and cos of fixed point numbers of moderate size, by their series. *)
EXTENDS Fixed
RECURSIVE DivDigits(_, _, _, _)
DivDigits(x, n, i, r) == IF i = 0 THEN << >>
  ELSE LET v == (r * B) + x[i] IN Append(DivDigits(x, n, i - 1, v % n), v \div n)
(* x / n for 1 <= n < 2^18 *)
DivI(x, n) == TLCEval(Norm(DivDigits(x, n, NL, 0)))
MinusUlp == [i \in 1..NL |-> IF i = NL THEN -1 ELSE B - 1]
RECURSIVE Series(_, _, _, _)
(* sum of z^j / ((s+1) ... (s+j*d)), term t given; d = 1: exp, d = 2: trig     *)
Series(t, z, k, d) ==
  IF k > 60 \/ t = Zero \/ t = MinusUlp THEN t
  ELSE LET m == Mul(t, z)
           q == IF d = 1 THEN DivI(m, k) ELSE DivI(DivI(m, k), k + 1)
       IN TLCEval(Add(t, Series(TLCEval(q), z, k + d, d)))
Neg(x) == Sub(Zero, x)
Sq(x) == Mul(x, x)
Exp(x) == TLCEval(Sq(Sq(Sq(Sq(Series(OfInt(1), DivI(x, 16), 1, 1))))))
Cos(x) == TLCEval(Series(OfInt(1), Neg(Mul(x, x)), 1, 2))
Sin(x) == TLCEval(Series(x, Neg(Mul(x, x)), 2, 2))
IsNeg(x) == x[NL] < 0
Abs(x) == IF IsNeg(x) THEN Neg(x) ELSE x
Less(x, y) == IsNeg(Sub(x, y))
(* |x - y| <= 2^-31; within 2^-12 * k *)
Same(x, y) == IsTiny(Sub(x, y))
Unit(d) == [i \in 1..NL |-> IF i = d THEN 1 ELSE 0]
(* |x - y| < k * 2^-24 *)
Close(x, y, k) == Less(Abs(Sub(x, y)), Scale(k, Unit(FL - 1)))
Half == [i \in 1..NL |-> IF i = FL THEN B \div 2 ELSE 0]
(* 1 / sqrt(2) *)
Root == <<1609, 2526, 831, 1267, 2896, 0, 0, 0>>
(* 1 / x for 2^-8 < |x| < 4096, otherwise 0 *)
Recip1(x) ==
  LET p == TLCEval(Abs(x))
      n == p[FL] + B * (p[FL + 1] + B * p[FL + 2])   \* floor(p * B)
      RECURSIVE It(_, _)
      It(r, k) == IF k = 0 THEN r
                  ELSE It(TLCEval(Mul(r, Sub(OfInt(2), Mul(p, r)))), k - 1)
      r == It(DivI(OfInt(B), n), 4)
  IN TLCEval(IF p[FL + 3] # 0 \/ n < 1 \/ n >= 262144 THEN Zero
             ELSE IF IsNeg(x) THEN Neg(r) ELSE r)
Recip(x) == IF Less(Abs(x), OfInt(32)) THEN Recip1(x) ELSE DivI(Recip1(DivI(x, 64)), 64)
ASSUME Same(Mul(Recip(OfInt(-777)), OfInt(777)), OfInt(-1))
ASSUME Same(Mul(Recip(OfInt(-7)), OfInt(7)), OfInt(-1))
ASSUME Same(Mul(Recip(DivI(OfInt(3), 70)), OfInt(3)), OfInt(70))
ASSUME Same(Mul(Root, Root), Half)
ASSUME DivI(OfInt(-15), 3) = OfInt(-5) /\ Same(Scale(7, DivI(OfInt(3), 7)), OfInt(3))
ASSUME Same(Mul(Exp(OfInt(3)), Exp(OfInt(-3))), OfInt(1))
ASSUME Same(Add(Mul(Sin(OfInt(5)), Sin(OfInt(5))), Mul(Cos(OfInt(5)), Cos(OfInt(5)))), OfInt(1))
ASSUME Close(Exp(OfInt(1)), Add(OfInt(2), DivI(DivI(DivI(
         OfInt(718281828), 1000), 1000), 1000)), 1)
=============================================================================
