----------------------------- MODULE TraceLife -----------------------------
(* Recorded histories of one integrator.  Results are tokens (equal tokens =  *)
(* bitwise equal results); T.fresh gives, per input, the tokens that freshly  *)
(* set up integrators returned.  The state is that of Integrator as far as    *)
(* it is determined from outside: the inputs in effect and whether complete   *)
(* checkpoints of them may exist (`cache`, used to count coverage of reuse).  *)
EXTENDS TraceBase
VARIABLES inp, eff, cache
vars == <<tr, l, inp, eff, cache>>
None == <<2, 2, 2>>
Idx(i) == 1 + i[1] + 2 * i[2] + 4 * i[3]
Init == tr \in 1..Len(Traces) /\ l = 1 /\ inp = <<0, 0, 0>> /\ eff = <<0, 0, 0>> /\ cache = None

Fresh(o, i) == LET f == T.fresh[Idx(i)] IN
  CASE o = "R" -> f.R [] o \in {"F", "G"} -> f.F[E.d] [] o \in {"B", "E"} -> f.B[E.d]

Change == /\ More /\ E.op \in {"sx", "su", "st"}
          /\ LET i == CASE E.op = "sx" -> 1 [] E.op = "su" -> 2 [] E.op = "st" -> 3
                 new == [inp EXCEPT ![i] = 1 - @]
             IN inp' = new /\ eff' = IF T.lev = "comp" THEN new ELSE eff
          /\ UNCHANGED cache /\ Advance
(* an operation that returned *)
Returned ==
  /\ More /\ E.op \in {"R", "F", "G", "B", "E"} /\ E.raised = 0
  /\ LET i == IF E.op = "R" THEN inp ELSE eff IN
     /\ Clause("differs-from-fresh-" \o (CASE E.op = "R" -> "run" [] E.op \in {"F", "G"} -> "fwd"
                                           [] OTHER -> "rev"), E.got = Fresh(E.op, i))
     /\ eff' = i
     /\ cache' = CASE E.op = "R" -> i [] E.op \in {"B", "E"} -> None [] OTHER -> cache
     /\ IF E.op \in {"B", "E"} /\ cache = i THEN PrintT(<<"REUSE", T.tid, l>>) ELSE TRUE
  /\ UNCHANGED inp /\ Advance
(* an operation that raised: only the injected failure may surface, and only as such *)
Raised ==
  /\ More /\ E.op \in {"R", "F", "G", "B", "E"} /\ E.raised # 0
  /\ Clause("unexpected-exception", E.n > 0 /\ E.raised = 1)
  /\ eff' = IF E.op = "R" THEN inp ELSE eff
  /\ cache' = IF E.op \in {"F", "G"} THEN cache ELSE None
  /\ UNCHANGED inp /\ Advance
(* non-finite inputs or directions: whatever happens, it leaves no trace *)
Poisoned ==
  /\ More /\ E.op \in {"PR", "PF", "PB", "NF", "NB"}
  /\ cache' = IF E.op \in {"PF", "NF"} THEN cache ELSE None
  /\ UNCHANGED <<inp, eff>> /\ Advance
Next == \/ Change \/ Returned \/ Raised \/ Poisoned
        \/ (Crash /\ UNCHANGED <<inp, eff, cache>> /\ Advance)
        \/ (Finish /\ UNCHANGED <<inp, eff, cache>>)
Spec == Init /\ [][Next]_vars
===========================================================================
