----------------------------- MODULE Adaptive ------------------------------
(* Adaptive integration with an arbitrary controller that keeps to its        *)
(* contract: what is rejected leaves no trace, the end time is hit, and the   *)
(* integration ends.  Time in integer units; the state is represented by the  *)
(* sequence of accepted step sizes that produced it.                          *)
EXTENDS Integers, Sequences, TLC
CONSTANTS TEnd, Lb, Ub, MaxRep,
          UseN,             \* number of steps prescribed instead of the end time (0: no)
          TrialOnCopy,      \* rejected trials are discarded
          LimitFirst,       \* the first step is limited by the remaining time
          LimitAccepted,    \* suggestion after acceptance limited by remaining time
          LimitRejected,    \* the same after a rejection
          AcceptAtLb        \* the smallest step is always accepted
VARIABLES x, t, sugg, hist, errs, n, pc, trial, acc, rep
vars == <<x, t, sugg, hist, errs, n, pc, trial, acc, rep>>
Sum(s) == LET RECURSIVE S(_)
              S(i) == IF i = 0 THEN 0 ELSE s[i] + S(i - 1)
          IN S(Len(s))
Min2(a, b) == IF a < b THEN a ELSE b
Init == /\ x = << >> /\ t = 0
        /\ \E h0 \in Lb..Ub : sugg = (IF UseN = 0 /\ LimitFirst THEN Min2(h0, TEnd) ELSE h0)
        /\ hist = <<0, 0>> /\ errs = <<-1, -1>> /\ n = 0 /\ pc = "check"
        /\ trial = << >> /\ acc = << >> /\ rep = 0
Finished == IF UseN > 0 THEN n >= UseN ELSE t >= TEnd
Check == /\ pc = "check"
         /\ pc' = IF Finished THEN "done" ELSE "try"
         /\ UNCHANGED <<x, t, sugg, hist, errs, n, trial, acc, rep>>
Try == /\ pc = "try"
       /\ trial' = [x |-> Append(x, sugg), t |-> t + sugg]
       /\ pc' = "decide" /\ UNCHANGED <<x, t, sugg, hist, errs, n, acc, rep>>
Remaining == IF UseN > 0 THEN 1000 ELSE TEnd - trial.t
Decide ==
  /\ pc = "decide"
  /\ \E ok \in BOOLEAN, raw \in Lb..Ub :
       /\ AcceptAtLb /\ sugg <= Lb => ok
       /\ LET lim == IF ok THEN (IF LimitAccepted THEN Remaining ELSE 1000)
                     ELSE (IF LimitRejected THEN Remaining + sugg ELSE 1000)
              new == Min2(lim, raw)
          IN IF ok
             THEN /\ x' = trial.x /\ t' = trial.t /\ n' = n + 1
                  /\ hist' = <<sugg, hist[1]>> /\ errs' = <<trial.t, errs[1]>>
                  /\ acc' = Append(acc, sugg) /\ sugg' = new /\ pc' = "check" /\ rep' = 0
             ELSE /\ IF TrialOnCopy THEN UNCHANGED <<x, t>> ELSE x' = trial.x /\ t' = trial.t
                  /\ UNCHANGED <<n, hist, errs, acc>>
                  /\ IF new > sugg
                     THEN pc' = "error" /\ UNCHANGED <<sugg, rep>>
                     ELSE /\ sugg' = new
                          /\ rep' = IF new = sugg THEN rep + 1 ELSE 0
                          \* an unchanged repetition is given up after a while
                          /\ pc' = IF rep' > MaxRep THEN "error" ELSE "try"
  /\ UNCHANGED trial
Next == Check \/ Try \/ Decide
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
OnlyAccepted == x = acc /\ t = Sum(acc) /\ n = Len(acc)
Histories == /\ hist[1] = (IF n >= 1 THEN acc[n] ELSE 0)
             /\ hist[2] = (IF n >= 2 THEN acc[n - 1] ELSE 0)
             /\ errs[1] = (IF n >= 1 THEN Sum(SubSeq(acc, 1, n)) ELSE -1)
             /\ errs[2] = (IF n >= 2 THEN Sum(SubSeq(acc, 1, n - 1)) ELSE -1)
NeverBeyond == UseN = 0 => t <= TEnd
HitsEnd == pc = "done" => IF UseN > 0 THEN n = UseN ELSE t = TEnd
Ends == <>(pc \in {"done", "error"})
===========================================================================
