-------------------------------- MODULE Zp --------------------------------
(* Arithmetic in Z_P and vectors over it.  All operators return numbers in    *)
(* 0..P-1; P*P must stay below 2^31 (TLC integers).  TLCEval forces           *)
(* evaluation of function values, which TLC would otherwise re-evaluate on    *)
(* every application.                                                         *)
EXTENDS Integers, Sequences, TLC
CONSTANT P

Add(a, b) == (a + b) % P
Sub(a, b) == (a - b) % P
Mul(a, b) == (a * b) % P

RECURSIVE DotTo(_, _, _)
DotTo(a, b, i) == IF i = 0 THEN 0 ELSE (DotTo(a, b, i - 1) + a[i] * b[i]) % P
Dot(a, b) == DotTo(a, b, Len(a))

VAdd(a, b)   == TLCEval([i \in 1..Len(a) |-> (a[i] + b[i]) % P])
VScale(c, a) == TLCEval([i \in 1..Len(a) |-> (c * a[i]) % P])
VAxpy(c, a, b) == TLCEval([i \in 1..Len(a) |-> (c * a[i] + b[i]) % P])
VMul(a, b)   == TLCEval([i \in 1..Len(a) |-> (a[i] * b[i]) % P])
VZero(n)     == TLCEval([i \in 1..n |-> 0])

(* sum over j in 1..Len(vs) of w[j]*vs[j], for vectors of length n *)
RECURSIVE CombTo(_, _, _, _)
CombTo(w, vs, n, j) ==
  IF j = 0 THEN VZero(n)
  ELSE LET r == CombTo(w, vs, n, j - 1)
       IN IF w[j] = 0 THEN r ELSE VAxpy(w[j], vs[j], r)
Comb(w, vs, n) == CombTo(w, vs, n, Len(vs))
===========================================================================
