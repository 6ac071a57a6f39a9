---------------------------- MODULE MC_Control -----------------------------
(* Design check of the chain: arbitrary controllers (a few exponents) and     *)
(* arbitrary sequences of trials.                                             *)
EXTENDS Control, TLC
CONSTANTS N, MaxLen
VARIABLES st, last, len, cons, ks
vars == <<st, last, len, cons, ks>>
P == 1
Exps == {Z(0, 0, 0, 0, 0), Z(360, 0, 0, 0, 0), Z(1440, 720, 0, 720, 0), Z(180, -180, 0, -180, 0)}
Cf == [lt |-> 0, lb |-> -16, ub |-> 16, usf |-> 0, max |-> 2]
Init == /\ ks \in [1..N -> Exps]
        /\ st = Fresh(N) /\ len = 0 /\ cons = 0
        /\ last = [sug |-> [v |-> 0, ex |-> TRUE], acc |-> TRUE, err |-> FALSE, lh |-> 0]
Trial(r) == \E o \in Chain(ks, Cf, r, P, st) :
   /\ last' = [sug |-> o.sug, acc |-> o.acc, err |-> o.err, lh |-> r.lh]
   /\ st' = o.st /\ cons' = IF o.acc THEN 0 ELSE cons + 1
Next == /\ len < MaxLen /\ ~last.err /\ len' = len + 1 /\ UNCHANGED ks
        /\ \E le \in {-Big, -4, 0, 4, 12}, lh \in {-16, -4, 0}, e0 \in {-4, 0},
              lim \in {Big, 0} :
             \* a trial repeats with the suggestion, which is not larger
             /\ ~last.acc => U(lh, P) <= U(last.lh, P)
             /\ Trial([le |-> le, lh |-> lh, e0 |-> e0, e1 |-> 0, s0 |-> 0, s1 |-> Big,
                       ur |-> lim, urh |-> IF lim = Big THEN Big ELSE Max2(lim, U(lh, P))])
Spec == Init /\ [][Next]_vars
(* the counts never exceed the permitted number *)
Counted == \A i \in 1..N : st[i].cnt \in 0..Cf.max
(* after an accepted step the first controller is in charge, with fresh counts *)
FreshAfterAccept == last.acc => st = Fresh(N)
(* after more than max rejections, or a useless suggestion, somebody else decides *)
TakesOver == (N > 1 /\ cons > Cf.max) => \E i \in 2..N : ~st[i].outer
(* an error only after a rejection with a larger suggestion *)
ErrorsRight == last.err => (~last.acc /\ last.sug.v >= U(last.lh, P) - Tol)
(* never a larger step after a rejection without an error *)
NoGrowth == (~last.acc /\ ~last.err) => last.sug.v <= U(last.lh, P) + Tol
WithinBounds == last.sug.v <= U(Cf.ub, P)
===========================================================================
