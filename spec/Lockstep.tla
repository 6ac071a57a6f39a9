----------------------------- MODULE Lockstep ------------------------------
(* Adaptive integration on several processes.  Every evaluation of the stage  *)
(* model is collective, so is the measure of the error if it is reduced over  *)
(* the processes (Global).  Each process decides for itself, from the measure *)
(* it has.  Whatever the local error contributions are: the processes make    *)
(* the same decisions and nobody waits for somebody who is elsewhere.         *)
EXTENDS Naturals, FiniteSets
CONSTANTS R, Steps, Levels, Global, MaxTrials
Procs == 1..R
VARIABLES at, key, meas, acc, loc
vars == <<at, key, meas, acc, loc>>
(* at[r]: what process r does next; key[r]: trials so far, the identity of the *)
(* next collective operation; acc[r]: accepted steps (sequence as a bit set of *)
(* trials); loc: local contributions to the error of the current trial         *)
Tol == 1
Max(S) == CHOOSE v \in S : \A w \in S : w <= v
Init == /\ at = [r \in Procs |-> "eval"] /\ key = [r \in Procs |-> 0]
        /\ meas = [r \in Procs |-> 0] /\ acc = [r \in Procs |-> {}]
        /\ loc \in [Procs -> Levels]
Done(r) == Cardinality(acc[r]) = Steps \/ key[r] >= MaxTrials
Ready(what) == \A r \in Procs : at[r] = what
(* all evaluate together *)
Eval == /\ Ready("eval")
        /\ \E c \in [Procs -> Levels] : loc' = c
        /\ at' = [r \in Procs |-> "measure"]
        /\ UNCHANGED <<key, meas, acc>>
MeasureAll == /\ Global /\ Ready("measure")
              /\ meas' = [r \in Procs |-> Max({loc[q] : q \in Procs})]
              /\ at' = [r \in Procs |-> "decide"]
              /\ UNCHANGED <<key, acc, loc>>
MeasureOne(r) == /\ ~Global /\ at[r] = "measure"
                 /\ meas' = [meas EXCEPT ![r] = loc[r]]
                 /\ at' = [at EXCEPT ![r] = "decide"]
                 /\ UNCHANGED <<key, acc, loc>>
Decide(r) == /\ at[r] = "decide"
             /\ LET ok == meas[r] <= Tol
                    a  == IF ok THEN acc[r] \cup {key[r]} ELSE acc[r]
                    k  == key[r] + 1
                IN /\ acc' = [acc EXCEPT ![r] = a]
                   /\ key' = [key EXCEPT ![r] = k]
                   /\ at' = [at EXCEPT ![r] = IF Cardinality(a) = Steps \/ k >= MaxTrials
                                              THEN "done" ELSE "eval"]
             /\ UNCHANGED <<meas, loc>>
Next == Eval \/ MeasureAll \/ \E r \in Procs : MeasureOne(r) \/ Decide(r)
Spec == Init /\ [][Next]_vars
(* nobody who has ended is waited for, and waiting processes wait for the same *)
NoMismatch == ~ \E r, q \in Procs : at[r] = "eval" /\ at[q] = "done"
Agree == \A r, q \in Procs : (at[r] = at[q] /\ key[r] = key[q]) => acc[r] = acc[q]
===========================================================================
