------------------------------ MODULE TagCases ------------------------------
(* Generates taggings: valid models, changed in up to MaxChanges places.      *)
EXTENDS Tags, Json
CONSTANTS MaxChanges
VARIABLES vs, lq, lw, n
vars == <<vs, lq, lw, n>>
Var(io, t, one) == [io |-> io, t |-> t, one |-> one]
Full(q) == <<Var("out", {q, "so"}, FALSE), Var("in", {q, "si"}, FALSE), Var("in", {q, "as"}, FALSE)>>
Bare(q) == <<Var("out", {q, "so"}, FALSE)>>
Param(w) == <<Var("in", {w, "ti"}, FALSE)>>
Time == <<Var("in", {"tv"}, TRUE)>>
Bases == { <<Bare("x"), {"x"}, {}>>, <<Full("x"), {"x"}, {}>>,
           <<Full("x") \o Time, {"x"}, {}>>,
           <<Full("x") \o Full("y"), {"x", "y"}, {}>>,
           <<Full("y") \o Bare("x") \o Param("w"), {"x", "y"}, {"w"}>>,
           <<Full("x") \o Bare("y") \o Param("w") \o Param("v") \o Time, {"x", "y"}, {"w", "v"}>> }
Menu == { Var("out", {"x", "so"}, FALSE), Var("out", {"y", "so"}, FALSE), Var("out", {"x"}, FALSE),
          Var("out", {"x", "y", "so"}, FALSE), Var("out", {"x", "si"}, FALSE), Var("out", {"z", "so"}, FALSE),
          Var("in", {"x", "si"}, FALSE), Var("in", {"x", "as"}, FALSE), Var("in", {"y", "as"}, FALSE),
          Var("in", {"x", "y", "si"}, FALSE), Var("in", {"x", "y", "as"}, FALSE), Var("in", {"x", "si", "as"}, FALSE),
          Var("in", {"x"}, FALSE), Var("in", {"w", "ti"}, FALSE), Var("in", {"w"}, FALSE),
          Var("in", {"w", "v", "ti"}, FALSE), Var("in", {"x", "si", "w", "ti"}, FALSE),
          Var("in", {"tv"}, TRUE), Var("in", {"tv"}, FALSE), Var("in", {"w", "ti", "tv"}, TRUE),
          Var("in", {"z", "si"}, FALSE), Var("in", {}, FALSE), Var("in", {"si"}, FALSE), Var("in", {"z", "ti"}, FALSE) }
Init == \E b \in Bases : vs = b[1] /\ lq = b[2] /\ lw = b[3] /\ n = 0
Add == \E m \in Menu : vs' = Append(vs, m) /\ UNCHANGED <<lq, lw>>
Remove == \E i \in 1..Len(vs) :
            vs' = SubSeq(vs, 1, i - 1) \o SubSeq(vs, i + 1, Len(vs)) /\ UNCHANGED <<lq, lw>>
Relist == /\ UNCHANGED vs
          /\ \/ \E q \in {"x", "y"} \ lq : lq' = lq \cup {q} /\ UNCHANGED lw
             \/ \E q \in lq : Cardinality(lq) > 1 /\ lq' = lq \ {q} /\ UNCHANGED lw
             \/ \E w \in {"w", "v"} \ lw : lw' = lw \cup {w} /\ UNCHANGED lq
             \/ \E w \in lw : lw' = lw \ {w} /\ UNCHANGED lq
Next == n < MaxChanges /\ n' = n + 1 /\ (Add \/ Remove \/ Relist)
Spec == Init /\ [][Next]_vars
Emit == Outs(vs) = {} \/ PrintT(<<"H", ToJson(<<[i \in 1..Len(vs) |-> <<vs[i].io, vs[i].one, vs[i].t>>], lq, lw>>)>>)
(* sanity of the definitions *)
ValidIsUnique == Valid(vs, lq, lw) =>
  /\ \A q \in lq : \E i \in 1..Len(vs) : HasTag(vs, q) \cap Outs(vs) = {i}
  /\ \A q1, q2 \in lq : q1 # q2 => (HasTag(vs, q1) \ {}) \cap HasTag(vs, q2) = {}
=============================================================================
