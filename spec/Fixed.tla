------------------------------- MODULE Fixed -------------------------------
(* Fixed point numbers: little-endian sequences of NL digits in base 2^12,    *)
(* the last one signed; FL digits are fractional (60 bits).                   *)
EXTENDS Integers, Sequences, TLC
B == 4096
NL == 8
FL == 5
Zero == [i \in 1..NL |-> 0]
OfInt(v) == [i \in 1..NL |-> IF i <= FL THEN 0 ELSE IF i = FL + 1 THEN v % B
                             ELSE IF i = FL + 2 THEN (v \div B) % B ELSE v \div (B * B)]
ASSUME NL = FL + 3
(* Numbers beyond 2^37 in modulus become the largest ones, so that arithmetic  *)
(* on nonsensical results does not fail; sensible ones are far smaller.       *)
Lim == 8192
Clamp(v) == IF v > Lim THEN Lim ELSE IF v < -Lim THEN -Lim ELSE v
(* carries; the input digits may be any integers *)
Norm(x) ==
  LET a1 == x[1]
      a2 == x[2] + (a1 \div B)
      a3 == x[3] + (a2 \div B)
      a4 == x[4] + (a3 \div B)
      a5 == x[5] + (a4 \div B)
      a6 == x[6] + (a5 \div B)
      a7 == x[7] + (a6 \div B)
      a8 == x[8] + (a7 \div B)
  IN <<a1 % B, a2 % B, a3 % B, a4 % B, a5 % B, a6 % B, a7 % B, Clamp(a8)>>
Add(x, y) == Norm([i \in 1..NL |-> x[i] + y[i]])
Sub(x, y) == Norm([i \in 1..NL |-> x[i] - y[i]])
Scale(k, x) == Norm([i \in 1..NL |-> k * x[i]])
RawMul(x, y) == <<
    (x[1] * y[1]),
    (x[1] * y[2]) + (x[2] * y[1]),
    (x[1] * y[3]) + (x[2] * y[2]) + (x[3] * y[1]),
    (x[1] * y[4]) + (x[2] * y[3]) + (x[3] * y[2]) + (x[4] * y[1]),
    (x[1] * y[5]) + (x[2] * y[4]) + (x[3] * y[3]) + (x[4] * y[2]) + (x[5] *
    y[1]),
    (x[1] * y[6]) + (x[2] * y[5]) + (x[3] * y[4]) + (x[4] * y[3]) + (x[5] *
    y[2]) + (x[6] * y[1]),
    (x[1] * y[7]) + (x[2] * y[6]) + (x[3] * y[5]) + (x[4] * y[4]) + (x[5] *
    y[3]) + (x[6] * y[2]) + (x[7] * y[1]),
    (x[1] * y[8]) + (x[2] * y[7]) + (x[3] * y[6]) + (x[4] * y[5]) + (x[5] *
    y[4]) + (x[6] * y[3]) + (x[7] * y[2]) + (x[8] * y[1]),
    (x[2] * y[8]) + (x[3] * y[7]) + (x[4] * y[6]) + (x[5] * y[5]) + (x[6] *
    y[4]) + (x[7] * y[3]) + (x[8] * y[2]),
    (x[3] * y[8]) + (x[4] * y[7]) + (x[5] * y[6]) + (x[6] * y[5]) + (x[7] *
    y[4]) + (x[8] * y[3]),
    (x[4] * y[8]) + (x[5] * y[7]) + (x[6] * y[6]) + (x[7] * y[5]) + (x[8] *
    y[4]),
    (x[5] * y[8]) + (x[6] * y[7]) + (x[7] * y[6]) + (x[8] * y[5]),
    (x[6] * y[8]) + (x[7] * y[7]) + (x[8] * y[6]),
    (x[7] * y[8]) + (x[8] * y[7]),
    (x[8] * y[8]) >>
(* the digits of weight B^-FL and above; those above the result only extend   *)
(* the sign                                                                   *)
Cut(r) ==
  LET a1 == r[1]
      a2 == r[2] + (a1 \div B)
      a3 == r[3] + (a2 \div B)
      a4 == r[4] + (a3 \div B)
      a5 == r[5] + (a4 \div B)
      a6 == r[6] + (a5 \div B)
      a7 == r[7] + (a6 \div B)
      a8 == r[8] + (a7 \div B)
      a9 == r[9] + (a8 \div B)
      a10 == r[10] + (a9 \div B)
      a11 == r[11] + (a10 \div B)
      a12 == r[12] + (a11 \div B)
      a13 == r[13] + (a12 \div B)
      a14 == r[14] + (a13 \div B)
      a15 == r[15] + (a14 \div B)
  IN <<a6 % B, a7 % B, a8 % B, a9 % B, a10 % B, a11 % B, a12 % B,
       IF a15 > 0 THEN Lim ELSE IF a15 < -1 THEN -Lim
       ELSE Clamp((a13 % B) + (B * ((a14 % B) + (B * a15))))>>
ASSUME FL + NL + 2 = 2 * NL - 1
Mul(x, y) == TLCEval(Cut(RawMul(x, y)))
RECURSIVE RawDot(_, _, _)
RawDot(xs, ys, n) == IF n = 1 THEN RawMul(xs[1], ys[1])
                     ELSE LET r == RawDot(xs, ys, n - 1)  q == RawMul(xs[n], ys[n])
                          IN TLCEval([k \in 1..(2 * NL - 1) |-> r[k] + q[k]])
FDot(xs, ys) == TLCEval(Cut(RawDot(xs, ys, Len(xs))))
(* |x| <= m 2^-36 (the unit of the third fractional digit from above)         *)
IsSmall(x, m) == LET small(y) == /\ y[NL] = 0 /\ y[NL - 1] = 0 /\ y[NL - 2] = 0
                                 /\ y[FL] = 0 /\ y[FL - 1] = 0 /\ y[FL - 2] < m
                 IN small(x) \/ small(Sub(Zero, x))
IsTiny(x) == IsSmall(x, 32)
ASSUME Mul(OfInt(3), OfInt(-5)) = OfInt(-15)
ASSUME Mul(OfInt(-70000), OfInt(-3)) = OfInt(210000)
ASSUME Mul([Zero EXCEPT ![FL] = B \div 2], [Zero EXCEPT ![FL] = B \div 2])
         = [Zero EXCEPT ![FL] = B \div 4]
ASSUME Mul(OfInt(1000000), OfInt(-1000000))[NL] = -Lim
ASSUME LET m == Mul(OfInt(1000000), OfInt(1000000)) IN Mul(m, FDot(<<m, m>>, <<m, m>>))[NL] = Lim
ASSUME IsTiny(Sub(Mul([Zero EXCEPT ![FL] = 1], OfInt(B)), OfInt(1)))
ASSUME ~IsTiny(OfInt(-1)) /\ ~IsTiny([Zero EXCEPT ![FL - 2] = 40])
ASSUME IsTiny([Zero EXCEPT ![FL - 2] = 30]) /\ IsTiny(Sub(Zero, [Zero EXCEPT ![FL - 2] = 30]))
ASSUME FDot(<<OfInt(2), OfInt(-3)>>, <<OfInt(-4), OfInt(5)>>) = OfInt(-23)
===========================================================================
