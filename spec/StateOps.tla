----------------------------- MODULE StateOps ------------------------------
(* Integration states as objects: fields held in arrays (addresses of a heap),*)
(* operated on by                                                             *)
(*   W a    an array element of state a is written in place                   *)
(*   S a b  a.set(b): contents of b are copied into the arrays of a           *)
(*   V a    the data of a's checkpoint is saved                               *)
(*   R a    saved data is written back to the data locations of a             *)
(*   D a    a is converted to a dictionary, whose arrays are stored           *)
(*   F a    a is replaced by a state built from (a copy of) the stored ones   *)
(*   T a    a is replaced by the conversion of its own dictionary             *)
(*   C a b  a is replaced by a deep copy of b                                 *)
(* The heap is compared with plain values, for which nothing can be shared.   *)
(* The BOOLEAN constants switch single mechanisms off.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Depth,
          SetCopies,      \* set copies into the existing arrays
          SaveCopies      \* checkpoint data is a copy
VARIABLES addr, heap, val, saved, savedVal, dict, dictVal, nv, hist
vars == <<addr, heap, val, saved, savedVal, dict, dictVal, nv, hist>>
St == {1, 2}
Fields == {"f", "g"}
None == << >>
Init == /\ addr = [a \in St |-> [f \in Fields |-> IF f = "f" THEN 2 * a - 1 ELSE 2 * a]]
        /\ heap = [i \in 1..4 |-> i] /\ val = [a \in St |-> [f \in Fields |-> heap[addr[a][f]]]]
        /\ saved = None /\ savedVal = None /\ dict = None /\ dictVal = None
        /\ nv = 5 /\ hist = << >>
Rec(o) == hist' = Append(hist, o)
New(vs) ==   \* fresh addresses holding the values vs
  LET n == Len(heap)
  IN [h |-> heap \o <<vs["f"], vs["g"]>>, a |-> [f \in Fields |-> IF f = "f" THEN n + 1 ELSE n + 2]]
Get(ad) == [f \in Fields |-> heap[ad[f]]]
W(a) == \E f \in Fields :
          /\ heap' = [heap EXCEPT ![addr[a][f]] = nv] /\ val' = [val EXCEPT ![a][f] = nv]
          /\ nv' = nv + 1 /\ UNCHANGED <<addr, saved, savedVal, dict, dictVal>> /\ Rec(<<"W", a, 0>>)
S(a, b) == /\ val' = [val EXCEPT ![a] = val[b]]
           /\ IF SetCopies
              THEN /\ heap' = [i \in DOMAIN heap |-> IF \E f \in Fields : addr[a][f] = i
                                   THEN heap[addr[b][CHOOSE f \in Fields : addr[a][f] = i]]
                                   ELSE heap[i]]
                   /\ UNCHANGED addr
              ELSE addr' = [addr EXCEPT ![a]["g"] = addr[b]["g"], ![a]["f"] = addr[b]["f"]]
                   /\ UNCHANGED heap
           /\ UNCHANGED <<saved, savedVal, dict, dictVal, nv>> /\ Rec(<<"S", a, b>>)
V(a) == /\ savedVal' = val[a]
        /\ IF SaveCopies THEN LET n == New(Get(addr[a])) IN heap' = n.h /\ saved' = n.a
           ELSE saved' = addr[a] /\ UNCHANGED heap
        /\ UNCHANGED <<addr, val, dict, dictVal, nv>> /\ Rec(<<"V", a, 0>>)
R(a) == /\ saved # None /\ val' = [val EXCEPT ![a] = savedVal]
        /\ heap' = [i \in DOMAIN heap |-> IF \E f \in Fields : addr[a][f] = i
                          THEN heap[saved[CHOOSE f \in Fields : addr[a][f] = i]] ELSE heap[i]]
        /\ UNCHANGED <<addr, saved, savedVal, dict, dictVal, nv>> /\ Rec(<<"R", a, 0>>)
D(a) == /\ dictVal' = val[a]
        /\ LET n == New(Get(addr[a])) IN heap' = n.h /\ dict' = n.a
        /\ UNCHANGED <<addr, val, saved, savedVal, nv>> /\ Rec(<<"D", a, 0>>)
F(a) == /\ dict # None /\ val' = [val EXCEPT ![a] = dictVal]
        /\ LET n == New(Get(dict)) IN heap' = n.h /\ addr' = [addr EXCEPT ![a] = n.a]
        /\ UNCHANGED <<saved, savedVal, dict, dictVal, nv>> /\ Rec(<<"F", a, 0>>)
X(a) == /\ UNCHANGED <<addr, heap, val, saved, savedVal, dict, dictVal, nv>> /\ Rec(<<"T", a, 0>>)
C(a, b) == /\ val' = [val EXCEPT ![a] = val[b]]
           /\ LET n == New(Get(addr[b])) IN heap' = n.h /\ addr' = [addr EXCEPT ![a] = n.a]
           /\ UNCHANGED <<saved, savedVal, dict, dictVal, nv>> /\ Rec(<<"C", a, b>>)
Next == /\ Len(hist) < Depth
        /\ \E a \in St : \/ W(a) \/ V(a) \/ R(a) \/ D(a) \/ F(a) \/ X(a)
                         \/ \E b \in St \ {a} : S(a, b) \/ C(a, b)
Spec == Init /\ [][Next]_vars
Faithful == /\ \A a \in St : Get(addr[a]) = val[a]
            /\ saved # None => Get(saved) = savedVal
            /\ dict # None => Get(dict) = dictVal
Independent == \A a, b \in St : \A f, g \in Fields :
                  addr[a][f] = addr[b][g] => a = b /\ f = g
Emit == Len(hist) = Depth => PrintT(<<"H", hist>>)
===========================================================================
