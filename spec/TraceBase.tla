----------------------------- MODULE TraceBase -----------------------------
(* Common part of all trace specifications: a batch of recorded executions,   *)
(* one per line of TRACE_FILE.  Each is validated as an independent behaviour *)
(* (chosen in Init); verdicts are total: every clause of every event is       *)
(* evaluated, failing ones are printed, and DONE is printed when a trace was  *)
(* consumed completely.                                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l
T == Traces[tr]
E == T.ev[l]
More == l <= Len(T.ev)
Op(name) == More /\ E.op = name
Clause(c, ok) == IF ok THEN TRUE ELSE PrintT(<<"VERDICT", T.tid, l, c>>)
Crash == Op("crash") /\ PrintT(<<"VERDICT", T.tid, l, E.kind>>)
Advance == l' = l + 1 /\ UNCHANGED tr
Finish == /\ l = Len(T.ev) + 1
          /\ PrintT(<<"DONE", T.tid>>)
          /\ l' = l + 1
          /\ UNCHANGED tr
===========================================================================
