---------------------------- MODULE TraceHelper ----------------------------
(* Stage helper components and the exchange of step size h and diagonal entry *)
(* a with the components of the stage model.  The state is what the last      *)
(* evaluation or product handed out; all unsteady components have to see it.  *)
(*   value  helper: v = old + h (acc + a k)                                   *)
(*   update helper: x = old + h (acc + a u)                                   *)
(* Records r: old, acc, k, v for both, with (x, u) in the places of (v, k).   *)
EXTENDS Zp, TraceBase
VARIABLES h, a
vars == <<tr, l, h, a>>
Init == tr \in 1..Len(Traces) /\ l = 1 /\ h = 0 /\ a = 0

(* v - old - h acc - h a k = 0 holds for values and for their tangents *)
Stage(r, hh, aa) ==
  r.v = VAxpy((hh * aa) % P, r.k, VAxpy(hh, r.acc, r.old))
SeenOK == \A i \in 1..Len(E.seen) : E.seen[i] = <<E.h, E.a>>

Attach == Op("attach") /\ UNCHANGED <<h, a>> /\ Advance
Evaluate ==
  /\ \E o \in {"update", "tangent", "adjoint"} : Op(o)
  /\ Clause("exchange", SeenOK)
  /\ Clause("exchange-reaches-all", E.nseen = T.nprobes)
  /\ Op("update") => /\ \A i \in 1..Len(E.r) :
                          Clause(E.r[i].kind \o "-helper", Stage(E.r[i], E.h, E.a))
                     /\ Clause("no-foreign-exchange", E.bystander = T.bystander)
  /\ Op("tangent") => \A i \in 1..Len(E.r) :
                        Clause(E.r[i].kind \o "-helper-tangent",
                               Stage(E.r[i], E.h, E.a))
  /\ Op("adjoint") => Clause("adjoint-is-transpose", E.lhs = E.rhs)
  /\ h' = E.h /\ a' = E.a /\ Advance

(* a product of one helper; per quantity the entries before (0) and after (1) *)
(* and whether in, old, acc (the inputs) and out are in scope.  The input is  *)
(* k for the value helper and x for the update helper.                        *)
Sub2(p, q) == TLCEval([i \in 1..Len(p) |-> (p[i] - q[i]) % P])
On(s, v) == VScale(s, v)
Neg(v) == VScale(P - 1, v)
ha == (h * a) % P
ProdOK(q) ==
  LET s  == q.s        \* scope: in, old, acc, out
      dI == Sub2(q.in1, q.in0)  dO == Sub2(q.old1, q.old0)
      dA == Sub2(q.acc1, q.acc0) dR == Sub2(q.out1, q.out0)
      Z  == VZero(Len(dR))
  IN IF E.mode = "fwd"
     THEN /\ Clause("product-keeps-seeds", dI = Z /\ dO = Z /\ dA = Z)
          /\ Clause(E.kind \o "-helper-forward",
               IF E.kind = "value"
               THEN dR = On(s[4], VAdd(On(s[2], q.old0),
                       VAdd(On((h * s[3]) % P, q.acc0), On((ha * s[1]) % P, q.in0))))
               ELSE VScale(ha, dR) = On(s[4], VAdd(On(s[1], q.in0),
                       Neg(VAdd(On(s[2], q.old0), On((h * s[3]) % P, q.acc0))))))
     ELSE LET b == On(s[4], q.out0)
          IN /\ Clause("product-keeps-seeds", dR = Z)
             /\ Clause(E.kind \o "-helper-reverse",
                  IF E.kind = "value"
                  THEN /\ dO = On(s[2], b) /\ dA = On((h * s[3]) % P, b)
                       /\ dI = On((ha * s[1]) % P, b)
                  ELSE /\ VScale(ha, dI) = On(s[1], b)
                       /\ VScale(ha, dO) = Neg(On(s[2], b))
                       /\ VScale(a, dA) = Neg(On(s[3], b)))
Prod == /\ Op("prod")
        /\ \A i \in 1..Len(E.q) : ProdOK(E.q[i])
        /\ UNCHANGED <<h, a>> /\ Advance

Next == \/ Attach \/ Evaluate \/ Prod
        \/ (Crash /\ UNCHANGED <<h, a>> /\ Advance)
        \/ (Finish /\ UNCHANGED <<h, a>>)
Spec == Init /\ [][Next]_vars
=============================================================================
