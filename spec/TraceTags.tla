----------------------------- MODULE TraceTags -----------------------------
(* Set up of stage models generated from TagCases, and the data exchange of   *)
(* the accepted ones, probed with pairwise different values.                  *)
(* T.vs: variables [io, t (sequence of tags), one, size], T.lq, T.lw: lists.  *)
EXTENDS Tags, TraceBase
vars == <<tr, l>>
Init == tr \in 1..Len(Traces) /\ l = 1
Set(s) == {s[i] : i \in 1..Len(s)}
VS == TLCEval([i \in 1..Len(T.vs) |-> [io |-> T.vs[i].io, t |-> Set(T.vs[i].t), one |-> T.vs[i].one = 1]])
LQ == Set(T.lq)
LW == Set(T.lw)
Setup == /\ Op("setup")
         /\ LET ok == Valid(VS, LQ, LW) IN
            /\ Clause("rejected-valid", ok /\ ~Unclear(VS, LQ) => E.res = "ok")
            /\ Clause("accepted-invalid", ~ok => E.res # "ok")
            /\ Clause("kind-of-error", E.res \in {"ok", "SetupError"})
         /\ Advance
(* ranges of a list of [name, lo, hi, size of the variable], 0-based, half open *)
Ranges(rs, total, names) ==
  /\ {rs[i].name : i \in 1..Len(rs)} = names /\ Len(rs) = Cardinality(names)
  /\ \A i \in 1..Len(rs) : rs[i].lo >= 0 /\ rs[i].lo <= rs[i].hi /\ rs[i].hi <= total
  /\ \A i, j \in 1..Len(rs) : i # j => rs[i].hi <= rs[j].lo \/ rs[j].hi <= rs[i].lo
  /\ \A p \in 0..total - 1 : \E i \in 1..Len(rs) : rs[i].lo <= p /\ p < rs[i].hi
Sizes(rs, r) == \A i \in 1..Len(rs) :
                  LET v == TheVar(VS, rs[i].name, r)
                  IN v # 0 => rs[i].hi - rs[i].lo = T.vs[v].size /\ rs[i].shape = T.vs[v].shape
Start(v) == [p \in 1..T.vs[v].size |-> T.vs[v].base + 100 * v + p]
(* nothing else is touched *)
Others(seen) == Clause("other-variables", \A v \in Ins(VS) :
   VS[v].t \cap (LQ \cup LW \cup {"tv"}) = {} => seen[v] = Start(v))
(* E.seen[v]: values variable v had during the evaluation; the state was      *)
(* given as 1000 + p, accumulated stages as 2000 + p, independent inputs as   *)
(* 3000 + p, time as 4000; output variable v delivered 5000 + 100 v + entry   *)
Probe ==
  /\ Op("probe")
  /\ Clause("state-ranges", Ranges(E.q, E.n, LQ) /\ Sizes(E.q, "so"))
  /\ Clause("input-ranges", Ranges(E.w, E.m, LW) /\ Sizes(E.w, "ti"))
  /\ Clause("step-input", \A i \in 1..Len(E.q) : LET v == TheVar(VS, E.q[i].name, "si") IN
       v # 0 => E.seen[v] = [p \in 1..T.vs[v].size |-> 1000 + E.q[i].lo + p - 1])
  /\ Clause("accumulated-stages", \A i \in 1..Len(E.q) : LET v == TheVar(VS, E.q[i].name, "as") IN
       v # 0 => E.seen[v] = [p \in 1..T.vs[v].size |-> 2000 + E.q[i].lo + p - 1])
  /\ Clause("independent-input", \A i \in 1..Len(E.w) : LET v == TheVar(VS, E.w[i].name, "ti") IN
       v # 0 => E.seen[v] = [p \in 1..T.vs[v].size |-> 3000 + E.w[i].lo + p - 1])
  /\ Clause("time", TimeVar(VS) # 0 => E.seen[TimeVar(VS)] = <<4000>>)
  /\ Clause("stage-output", \A i \in 1..Len(E.q) : LET v == TheVar(VS, E.q[i].name, "so") IN
       v # 0 => \A p \in 1..T.vs[v].size : E.upd[E.q[i].lo + p] = 5000 + 100 * v + p)
  /\ Others(E.seen) /\ Advance
(* inputs of the integrator nobody has set: what the variable they are for    *)
(* has in the stage model, zero if there is none, and time zero               *)
Defaults ==
  /\ Op("defaults")
  /\ Clause("default-time", E.t = <<0>>)
  /\ Clause("default-values", \A i \in 1..Len(E.v) :
       LET q == E.v[i].name
           v == TheVar(VS, q, IF q \in LQ THEN "si" ELSE "ti")
           o == TheVar(VS, q, IF q \in LQ THEN "so" ELSE "ti")
       IN o # 0 => /\ E.v[i].shape = T.vs[o].shape
                   /\ E.v[i].val = (IF v # 0 THEN Start(v)
                                    ELSE [p \in 1..T.vs[o].size |-> 0]))
  /\ Advance
(* one step of the explicit Euler scheme of size one from time 4000 *)
Euler ==
  /\ Op("euler")
  /\ Clause("step-input", \A i \in 1..Len(E.given) :
       LET q == E.given[i].name v == TheVar(VS, q, IF q \in LQ THEN "si" ELSE "ti")
       IN v # 0 => E.seen[v] = E.given[i].val)
  /\ Clause("accumulated-stages", \A q \in LQ : LET v == TheVar(VS, q, "as") IN
       v # 0 => E.seen[v] = [p \in 1..T.vs[v].size |-> 0])
  /\ Clause("time", (TimeVar(VS) # 0 => E.seen[TimeVar(VS)] = <<4000>>) /\ E.t = <<4001>>)
  /\ Clause("final-values", \A i \in 1..Len(E.final) : \E j \in 1..Len(E.given) :
       LET q == E.final[i].name v == TheVar(VS, q, "so") IN
       /\ E.given[j].name = q
       /\ v # 0 => /\ E.final[i].shape = T.vs[v].shape
                   /\ E.final[i].val = [p \in 1..T.vs[v].size |->
                                           E.given[j].val[p] + 5000 + 100 * v + p])
  /\ Others(E.seen) /\ Advance
Next == Setup \/ Probe \/ Defaults \/ Euler \/ (Crash /\ Advance) \/ Finish
Spec == Init /\ [][Next]_vars
===========================================================================
