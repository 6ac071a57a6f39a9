------------------------------ MODULE Isolate ------------------------------
(* Several integrators set up from the same user objects, used in any         *)
(* interleaving, some operations aborted by an exception.                     *)
(*                                                                            *)
(* What an operation returns is a function of: the integrator's inputs, the   *)
(* options it was set up with, and the state of its error control when the    *)
(* operation starts.  The property: it only ever depends on the first, since  *)
(* the options keep the value the user gave them and error control starts     *)
(* afresh.  The BOOLEAN constants switch single mechanisms off.               *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Ints, Depth,
          PrivateOptions,    \* set up works on a copy of the option objects
          PrivateControl,    \* every integrator has controllers of its own
          ResetControl       \* controllers are reset when an operation starts
VARIABLES opts,     \* contents of the shared option object: set of keys
          used,     \* integrator -> option contents seen at its last set up
          ctrl,     \* controller object -> state (0 fresh)
          inp, res, hist
vars == <<opts, used, ctrl, inp, res, hist>>
C(i) == IF PrivateControl THEN i ELSE 1
Ok == [want |-> <<0, {}, 0>>, got |-> <<0, {}, 0>>]
Init == /\ opts = {} /\ used = [i \in Ints |-> {0}] /\ ctrl = [i \in Ints |-> 0]
        /\ inp = [i \in Ints |-> 0] /\ res = Ok /\ hist = << >>
Rec(o) == hist' = Append(hist, o)
Setup(i) == /\ used' = [used EXCEPT ![i] = opts]
            /\ opts' = IF PrivateOptions THEN opts ELSE opts \cup {i}
            /\ ctrl' = [ctrl EXCEPT ![C(i)] = 0]
            /\ res' = Ok /\ UNCHANGED inp /\ Rec(<<i, "S">>)
Set(i) == /\ inp' = [inp EXCEPT ![i] = 1 - @] /\ res' = Ok
          /\ UNCHANGED <<opts, used, ctrl>> /\ Rec(<<i, "X">>)
Start(i) == IF ResetControl THEN 0 ELSE ctrl[C(i)]
Good(i, o) == /\ res' = [want |-> <<inp[i], {}, 0>>, got |-> <<inp[i], used[i], Start(i)>>]
              /\ ctrl' = [ctrl EXCEPT ![C(i)] = 0]
              /\ UNCHANGED <<opts, used, inp>> /\ Rec(<<i, o>>)
(* an operation ended by an exception leaves the controllers in any state; likewise
   one that ends between a rejected trial and its repetition *)
Abort(i, o) == /\ \E s \in 0..2 : ctrl' = [ctrl EXCEPT ![C(i)] = s]
               /\ res' = Ok /\ UNCHANGED <<opts, used, inp>> /\ Rec(<<i, o>>)
IsSet(i) == used[i] # {0}
Next == /\ Len(hist) < Depth
        /\ \E i \in Ints :
             \/ Setup(i)
             \/ IsSet(i) /\ (Set(i) \/ Good(i, "R") \/ Good(i, "F") \/ Good(i, "B")
                             \/ Abort(i, "r") \/ Abort(i, "f"))
Spec == Init /\ [][Next]_vars
Isolated == res.want = res.got
OptionsKept == opts = {}
(* generator: histories that begin by setting up all integrators *)
SetFirst == \A k \in DOMAIN hist : k <= 2 => hist[k] = <<k, "S">>
Emit == Len(hist) = Depth => PrintT(<<"H", hist>>)
===========================================================================
