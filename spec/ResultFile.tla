----------------------------- MODULE ResultFile -----------------------------
(* The result file: what it contains as runs (of varying length) and reverse  *)
(* products (which recompute steps) follow each other on the same file.       *)
(* file[k] = 0: no group for step k; r > 0: written by run r; -r: created but *)
(* not yet written in run r.                                                  *)
EXTENDS Integers, FiniteSets
CONSTANTS MaxN, MaxRuns, Truncate, RecomputeAll
VARIABLES file, p, r, n, k, phase
vars == <<file, p, r, n, k, phase>>
Steps == 0..MaxN
Written(j) == j = 0 \/ j % p = 0
Init == /\ file = [j \in Steps |-> 0] /\ p \in 1..3 /\ r = 0 /\ n = 0 /\ k = 0
        /\ phase = "idle"
Start == /\ phase \in {"idle"} /\ r < MaxRuns
         /\ r' = r + 1 /\ n' \in 1..MaxN /\ k' = 1 /\ phase' = "before"
         /\ UNCHANGED <<file, p>>
(* groups to be created by the call before step k *)
New == {j \in {k} \cup (IF k = 1 THEN {0} ELSE {}) : Written(j)}
Before == /\ phase = "before" /\ phase' = "after"
          /\ LET old == IF k = 1 /\ Truncate THEN [j \in Steps |-> 0] ELSE file
             IN file' = [j \in Steps |-> IF j \in New /\ old[j] = 0 THEN -r ELSE old[j]]
          /\ UNCHANGED <<p, r, n, k>>
After == /\ phase = "after"
         /\ file' = [j \in Steps |-> IF j \in New THEN r ELSE file[j]]
         /\ IF k < n THEN k' = k + 1 /\ phase' = "before" ELSE k' = k /\ phase' = "idle"
         /\ UNCHANGED <<p, r, n>>
(* recomputation of a step for a reverse product: never the first one *)
Again == /\ phase = "idle" /\ n > 0 /\ k' \in (IF RecomputeAll THEN 1 ELSE 2)..n
         /\ phase' = "again" /\ UNCHANGED <<file, p, r, n>>
AgainBefore == /\ phase = "again" /\ phase' = "again2"
               /\ LET old == IF k = 1 /\ Truncate THEN [j \in Steps |-> 0] ELSE file
                  IN file' = [j \in Steps |-> IF j \in New /\ old[j] = 0 THEN -r ELSE old[j]]
               /\ UNCHANGED <<p, r, n, k>>
AgainAfter == /\ phase = "again2" /\ phase' = "idle"
              /\ file' = [j \in Steps |-> IF j \in New THEN r ELSE file[j]]
              /\ UNCHANGED <<p, r, n, k>>
Next == Start \/ Before \/ After \/ Again \/ AgainBefore \/ AgainAfter
Spec == Init /\ [][Next]_vars
(* the file holds exactly the trajectory of the latest run *)
Exact == phase = "idle" /\ r > 0 =>
         \A j \in Steps : file[j] = IF j <= n /\ Written(j) THEN r ELSE 0
NeverHalf == phase = "idle" => \A j \in Steps : file[j] >= 0
=============================================================================
