-------------------------------- MODULE Tags --------------------------------
(* Tagging of stage models: which ones are valid, and what set up has to      *)
(* derive from them.  A model is a sequence of variables                      *)
(*    [io: "in"/"out", t: set of tags, one: is a scalar]                      *)
(* x, y are listed as integrated quantities, w, v as independent inputs.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Roles == {"so", "si", "as", "ti", "tv"}
HasTag(vs, q) == {i \in 1..Len(vs) : q \in vs[i].t}
Outs(vs) == {i \in 1..Len(vs) : vs[i].io = "out"}
Ins(vs) == {i \in 1..Len(vs) : vs[i].io = "in"}
WithRole(vs, q, r) == {i \in HasTag(vs, q) : r \in vs[i].t}

QuantityOk(vs, q) ==
  /\ Cardinality(HasTag(vs, q) \cap Outs(vs)) = 1
  /\ WithRole(vs, q, "so") = HasTag(vs, q) \cap Outs(vs)
  /\ Cardinality(WithRole(vs, q, "si")) = Cardinality(WithRole(vs, q, "as"))
  /\ Cardinality(WithRole(vs, q, "si")) \in {0, 1}
ParamOk(vs, w) == /\ Cardinality(HasTag(vs, w)) = 1
                  /\ WithRole(vs, w, "ti") = HasTag(vs, w)
                  /\ HasTag(vs, w) \subseteq Ins(vs)
VarOk(vs, i, lq, lw) ==
  /\ Cardinality(vs[i].t \cap lq) <= 1
  /\ Cardinality(vs[i].t \cap lw) <= 1
  /\ vs[i].t \cap (lq \cup lw) # {} => Cardinality(vs[i].t \cap Roles) <= 1
Times(vs) == {i \in Ins(vs) : "tv" \in vs[i].t}
TimeOk(vs) == Cardinality(Times(vs)) <= 1 /\ \A i \in Times(vs) : vs[i].one
Valid(vs, lq, lw) == /\ \A q \in lq : QuantityOk(vs, q)
                     /\ \A w \in lw : ParamOk(vs, w)
                     /\ \A i \in 1..Len(vs) : VarOk(vs, i, lq, lw)
                     /\ TimeOk(vs)
(* inputs tagged for a quantity but without role may be ignored or rejected *)
Unclear(vs, lq) == \E i \in Ins(vs) : vs[i].t \cap lq # {} /\ vs[i].t \cap {"so", "si", "as"} = {}
(* the one variable that has the role for the quantity; 0 if there is none *)
TheVar(vs, q, r) == IF WithRole(vs, q, r) = {} THEN 0 ELSE CHOOSE i \in WithRole(vs, q, r) : TRUE
TimeVar(vs) == IF Times(vs) = {} THEN 0 ELSE CHOOSE i \in Times(vs) : TRUE
=============================================================================
