----------------------------- MODULE TraceState ----------------------------
(* Recorded operations on integration states, replayed from StateOps: after   *)
(* each operation both states are observed completely.                        *)
(* val[a]: contents of the fields of state a (T.names), by the specification. *)
EXTENDS TraceBase
VARIABLES val, saved, dict
vars == <<tr, l, val, saved, dict>>
Init == tr \in 1..Len(Traces) /\ l = 1 /\ val = << >> /\ saved = << >> /\ dict = << >>

(* sizes: state, independent inputs, independent outputs, stages, lin. point *)
Shape(n) ==
  LET z == T.sizes
  IN CASE n \in {"start_state", "final_state", "embedded_state", "error_estimate"} -> <<z[1]>>
       [] n \in {"stage_states", "stage_updates"} -> <<z[4], z[1]>>
       [] n = "independent_inputs" -> <<z[2]>>
       [] n = "stage_independent_outputs" -> <<z[4], z[3]>>
       [] n = "final_independent_outputs" -> <<z[3]>>
       [] n = "stage_times" -> <<z[4]>>
       [] n = "linearization_points" -> <<z[4], z[5]>>
       [] n \in {"start_time", "final_time", "step_size", "step_size_suggestion"} -> <<1>>
       [] n \in {"step_size_history", "error_history"} -> <<2>>
Shaped(s) == Clause("layout", s = [i \in 1..Len(T.names) |-> Shape(T.names[i])])

Start == /\ Op("start") /\ Shaped(E.shapes[1]) /\ Shaped(E.shapes[2]) /\ val' = E.obs /\ UNCHANGED <<saved, dict>> /\ Advance
(* k: <<operation, a, b>>; W writes v to entry j of field f *)
New == LET k == E.k[1]  a == E.k[2]  b == E.k[3]
       IN CASE k = "W" -> [val EXCEPT ![a][E.f][E.j] = E.v]
            [] k = "S" -> [val EXCEPT ![a] = val[b]]
            [] k = "C" -> [val EXCEPT ![a] = val[b]]
            [] k = "R" -> [val EXCEPT ![a] = saved]
            [] k = "F" -> [val EXCEPT ![a] = dict]
            [] OTHER -> val
Name(k) == CASE k = "W" -> "independent" [] k = "S" -> "set" [] k = "C" -> "deepcopy"
             [] k = "R" -> "restored" [] k = "F" -> "from-dict" [] k = "T" -> "round-trip"
             [] OTHER -> "unchanged"
Do == /\ Op("do")
      /\ val' = New
      /\ saved' = (IF E.k[1] = "V" THEN val[E.k[2]] ELSE saved)
      /\ dict' = (IF E.k[1] = "D" THEN val[E.k[2]] ELSE dict)
      /\ Clause(Name(E.k[1]), E.obs[E.k[2]] = val'[E.k[2]])
      /\ Clause("others-unchanged", \A a \in 1..Len(val) \ {E.k[2]} : E.obs[a] = val'[a])
      /\ Clause("in-place", E.inplace = 1)
      /\ Clause("kind", E.kind = T.kind)
      /\ Shaped(E.shapes)
      /\ Advance
Next == \/ Start \/ Do \/ (Crash /\ UNCHANGED <<val, saved, dict>> /\ Advance)
        \/ (Finish /\ UNCHANGED <<val, saved, dict>>)
Spec == Init /\ [][Next]_vars
===========================================================================
