--------------------------- MODULE TraceControl ----------------------------
(* Recorded calls of a controller or chain of controllers against Control.    *)
(* T.names, T.g: the controllers and their free parameters; T.p; T.cf.        *)
(* sts: the possible states of the chain.                                     *)
EXTENDS Control, TraceBase
VARIABLE sts
vars == <<tr, l, sts>>
Init == tr \in 1..Len(Traces) /\ l = 1 /\ sts = {Fresh(Len(Traces[tr].names))}
Ks == TLCEval([i \in 1..Len(T.names) |-> Coef(T.names[i], T.p, T.g[i])])
Outcomes == UNION { Chain(Ks, T.cf, E.r, T.p, s) : s \in sts }
(* suggestions beyond the range of exact logarithms (u = -Big: not positive) *)
SameSug(o) == IF o.sug.v = -Big \/ E.u = -Big THEN o.sug.v = E.u
              ELSE Close(o.sug.v, E.u)
Match(o) == IF o.err THEN E.err = 1
            ELSE E.err = 0 /\ (E.acc = 1) = o.acc /\ SameSug(o)
Trial ==
  /\ Op("trial")
  /\ LET os == TLCEval(Outcomes)
         ms == {o \in os : Match(o)} IN
     /\ Clause("acceptance", E.err = 1 \/ \E o \in os : (E.acc = 1) = o.acc)
     /\ Clause("error-raised", \E o \in os : (E.err = 1) = o.err)
     /\ Clause("suggestion", E.err = 1 \/ \E o \in os : o.err \/ SameSug(o))
     /\ Clause("verdict", ms # {})
     /\ sts' = {o.st : o \in IF ms = {} THEN os ELSE ms}
  /\ Advance
Reset == Op("reset") /\ sts' = {Fresh(Len(T.names))} /\ Advance
Next == Trial \/ Reset \/ (Crash /\ UNCHANGED sts /\ Advance)
        \/ (Finish /\ UNCHANGED sts)
Spec == Init /\ [][Next]_vars
===========================================================================
