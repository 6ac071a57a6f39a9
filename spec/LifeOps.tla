------------------------------ MODULE LifeOps ------------------------------
(* Histories of operations on one integrator (the operation level of          *)
(* Integrator), printed for replay on the real code.  An operation is         *)
(* <<name, n>>: sx/su/st change one part of the inputs; R, F, B are run,      *)
(* forward and reverse product; with n > 0 the stage model fails at its n-th  *)
(* evaluation (R, F, E) or linearization (G, B) during the operation:         *)
(*   E: reverse product failing in an evaluation, G: forward product failing  *)
(*   in a linearization.                                                      *)
(* PR, PF, PB: the same at inputs that are not finite, which are then replaced *)
(* by the previous ones; NF, NB: products of directions that are not finite.  *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Depth, MaxFail, Poison
VARIABLE hist
Good == {"R", "F", "B"}
Toggle == {"sx", "su", "st"}
Ops == ((Good \cup Toggle) \X {0}) \cup ({"R", "F", "B", "E", "G"} \X (1..MaxFail))
       \cup (IF Poison THEN {"PR", "PF", "PB", "NF", "NB"} \X {0} ELSE {})
Rank(o) == CASE o = "sx" -> 1 [] o = "su" -> 2 [] o = "st" -> 3 [] OTHER -> 0
(* toggles commute and cancel: keep one order only; a failing op or toggle just
   before the end of the history is never observed *)
Ok(h, o) ==
  /\ h # << >> /\ h[Len(h)][1] \in Toggle /\ o[1] \in Toggle
       => Rank(h[Len(h)][1]) < Rank(o[1])
  /\ Len(h) = Depth - 1 => o[1] \in Good /\ o[2] = 0
Init == hist = << >>
Next == /\ Len(hist) < Depth
        /\ \E o \in Ops : Ok(hist, o) /\ hist' = Append(hist, o)
Spec == Init /\ [][Next]_hist
Emit == Len(hist) = Depth => PrintT(<<"H", hist>>)
===========================================================================
