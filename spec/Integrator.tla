---------------------------- MODULE Integrator ----------------------------
(* Life cycle of one integrator: changing inputs, running, forward and        *)
(* reverse products, checkpoint storage, and failures of the stage model at   *)
(* any step of any operation.                                                 *)
(*                                                                            *)
(* An input is a triple (initial values, parameters, initial time) of tokens. *)
(* Data carries a tag <<input, step>> saying what it really is; the schedule  *)
(* only knows step numbers (what it believes to hold).  The property is that  *)
(* whatever is linearized really belongs to the current input and step.       *)
(*                                                                            *)
(* Scheme "all": a stack of all steps.  Scheme "slots": NSlots slots, filled, *)
(* loaded and overwritten in ANY order that the believed step numbers permit, *)
(* which covers every recomputation schedule; the state after the first step  *)
(* is kept outside of the slots.                                              *)
(*                                                                            *)
(* The BOOLEAN constants switch single mechanisms off, to show that each of   *)
(* them is needed (TLC then finds the violation).                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, NSlots, Scheme, MaxOps, MaxLoads,
          CompareX, CompareU, CompareT,     \* parts of the inputs compared
          InvalidateAtRun, InvalidateAtRev, \* cache dropped when storage changes
          ClearStore,                       \* storage emptied at start of a run
          FwdPrivate                        \* forward product works on a copy
VARIABLES inp, cache, stack, slots, first, live, op, lin, nops, nload
vars == <<inp, cache, stack, slots, first, live, op, lin, nops, nload>>

Bits == {0, 1}
Inputs == Bits \X Bits \X Bits
None == <<2, 2, 2>>  \* not an input
NoTag == <<None, 0>>
Idle == [kind |-> "idle", k |-> 0, then |-> "idle"]
NoLin == [want |-> NoTag, got |-> NoTag]

Init == /\ inp = <<0, 0, 0>> /\ cache = None
        /\ stack = << >> /\ slots = [i \in 1..NSlots |-> [b |-> 0, tag |-> NoTag]]
        /\ first = NoTag /\ live = [b |-> 0, tag |-> NoTag]
        /\ op = Idle /\ lin = NoLin /\ nops = 0 /\ nload = 0

CanStart == op.kind = "idle" /\ nops < MaxOps
Hit == cache # None /\ (CompareX => cache[1] = inp[1])
                    /\ (CompareU => cache[2] = inp[2])
                    /\ (CompareT => cache[3] = inp[3])

Change(i) ==
  /\ CanStart /\ inp' = [inp EXCEPT ![i] = 1 - @]
  /\ nops' = nops + 1
  /\ UNCHANGED <<cache, stack, slots, first, live, op, lin, nload>>

(* effects of starting a run; `then` is what follows it *)
BeginRun(then) ==
  /\ op' = [kind |-> "run", k |-> 0, then |-> then]
  /\ cache' = IF InvalidateAtRun THEN None ELSE cache
  /\ stack' = IF ClearStore THEN << >> ELSE stack
  /\ slots' = IF ClearStore THEN [i \in 1..NSlots |-> [b |-> 0, tag |-> NoTag]] ELSE slots
  /\ live' = [b |-> 0, tag |-> <<inp, 0>>]
  /\ lin' = NoLin
  /\ nload' = 0
  /\ UNCHANGED <<inp, first>>

StartRun == CanStart /\ BeginRun("idle") /\ nops' = nops + 1
StartRev ==
  /\ CanStart /\ Scheme # "none" /\ nops' = nops + 1
  /\ IF Hit
     THEN /\ op' = [kind |-> "rev", k |-> N, then |-> "idle"]
          /\ cache' = IF InvalidateAtRev THEN None ELSE cache
          /\ lin' = NoLin /\ nload' = 0
          /\ UNCHANGED <<inp, stack, slots, first, live>>
     ELSE BeginRun("rev")
StartFwd ==
  /\ CanStart /\ nops' = nops + 1
  /\ op' = [kind |-> "fwd", k |-> 0, then |-> "idle"]
  /\ live' = IF FwdPrivate THEN live ELSE [live EXCEPT !.tag = <<inp, 0>>]
  /\ UNCHANGED <<inp, cache, stack, slots, first, lin, nload>>

Next1(tag) == <<tag[1], tag[2] + 1>>

RunStep ==
  /\ op.kind = "run" /\ op.k < N
  /\ LET t == Next1(live.tag) IN
     /\ live' = [b |-> op.k + 1, tag |-> t]
     /\ stack' = IF Scheme = "all" THEN Append(stack, t) ELSE stack
     /\ first' = IF op.k = 0 THEN t ELSE first
  /\ op' = [op EXCEPT !.k = @ + 1]
  /\ UNCHANGED <<inp, cache, slots, lin, nops, nload>>

(* the schedule may store the live state at any time of a run or reverse sweep *)
Store(i) ==
  /\ Scheme = "slots" /\ op.kind \in {"run", "rev"} /\ live.b >= 1
  /\ op.kind = "rev" => live.b < op.k
  /\ slots[i].b = 0 \/ (op.kind = "rev" /\ slots[i].b > op.k)
  /\ \A j \in 1..NSlots : slots[j].b # live.b
  /\ slots' = [slots EXCEPT ![i] = live]
  /\ UNCHANGED <<inp, cache, stack, first, live, op, lin, nops, nload>>

EndRun ==
  /\ op.kind = "run" /\ op.k = N
  /\ IF op.then = "rev"
     THEN /\ op' = [kind |-> "rev", k |-> N, then |-> "idle"]
          /\ cache' = IF InvalidateAtRev THEN None ELSE inp
     ELSE op' = Idle /\ cache' = inp
  /\ UNCHANGED <<inp, stack, slots, first, live, lin, nops, nload>>

FwdStep ==
  /\ op.kind = "fwd" /\ op.k < N
  /\ op' = [op EXCEPT !.k = @ + 1]
  /\ live' = IF FwdPrivate THEN live ELSE [live EXCEPT !.tag = Next1(@)]
  /\ UNCHANGED <<inp, cache, stack, slots, first, lin, nops, nload>>
EndFwd ==
  /\ op.kind = "fwd" /\ op.k = N /\ op' = Idle
  /\ UNCHANGED <<inp, cache, stack, slots, first, live, lin, nops, nload>>

(* reverse sweep, scheme "all": whatever is on the stack is linearized *)
PopLin ==
  /\ Scheme = "all" /\ op.kind = "rev" /\ stack # << >>
  /\ lin' = [want |-> <<inp, op.k>>, got |-> stack[Len(stack)]]
  /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
  /\ op' = [op EXCEPT !.k = @ - 1]
  /\ UNCHANGED <<inp, cache, slots, first, live, nops, nload>>
(* scheme "slots": linearize what is believed to be step k *)
LiveLin ==
  /\ Scheme = "slots" /\ op.kind = "rev" /\ op.k > 0 /\ live.b = op.k
  /\ lin' = [want |-> <<inp, op.k>>, got |-> live.tag]
  /\ op' = [op EXCEPT !.k = @ - 1]
  /\ UNCHANGED <<inp, cache, stack, slots, first, live, nops, nload>>
Load(i) ==
  /\ Scheme = "slots" /\ op.kind = "rev" /\ nload < MaxLoads
  /\ slots[i].b >= 1 /\ slots[i].b <= op.k
  /\ live' = slots[i] /\ nload' = nload + 1
  /\ UNCHANGED <<inp, cache, stack, slots, first, op, lin, nops>>
LoadFirst ==
  /\ Scheme = "slots" /\ op.kind = "rev" /\ op.k >= 1 /\ nload < MaxLoads
  /\ live' = [b |-> 1, tag |-> first] /\ nload' = nload + 1
  /\ UNCHANGED <<inp, cache, stack, slots, first, op, lin, nops>>
Recompute ==
  /\ Scheme = "slots" /\ op.kind = "rev" /\ live.b >= 1 /\ live.b < op.k
  /\ live' = [b |-> live.b + 1, tag |-> Next1(live.tag)]
  /\ UNCHANGED <<inp, cache, stack, slots, first, op, lin, nops, nload>>
EndRev ==
  /\ op.kind = "rev" /\ (IF Scheme = "all" THEN stack = << >> ELSE op.k = 0)
  /\ op' = Idle
  /\ lin' = [want |-> <<inp, 0>>, got |-> <<inp, op.k>>]  \* all N steps were done
  /\ UNCHANGED <<inp, cache, stack, slots, first, live, nops, nload>>

(* an exception in the stage model ends the operation wherever it is *)
Fail ==
  /\ op.kind # "idle" /\ op' = Idle /\ lin' = NoLin
  /\ UNCHANGED <<inp, cache, stack, slots, first, live, nops, nload>>

Next == \/ \E i \in 1..3 : Change(i)
        \/ StartRun \/ StartRev \/ StartFwd \/ RunStep \/ EndRun \/ FwdStep \/ EndFwd
        \/ PopLin \/ LiveLin \/ LoadFirst \/ Recompute \/ EndRev \/ Fail
        \/ \E i \in 1..NSlots : Store(i) \/ Load(i)
Spec == Init /\ [][Next]_vars

LinearizedRight == lin.want = lin.got
CacheComplete == (cache # None /\ op.kind = "idle") =>
   IF Scheme = "all" THEN stack = [k \in 1..N |-> <<cache, k>>]
   ELSE /\ live.tag = <<cache, N>> /\ first = <<cache, 1>>
        /\ \A i \in 1..NSlots : slots[i].b # 0 => slots[i].tag = <<cache, slots[i].b>>
(* a reverse sweep can always go on (while loads are left, which only bound the model) *)
NotStuck == (op.kind = "rev" /\ nload < MaxLoads) =>
   \/ (Scheme = "all")
   \/ op.k = 0 \/ live.b = op.k \/ (live.b >= 1 /\ live.b < op.k)
   \/ first # NoTag
===========================================================================
