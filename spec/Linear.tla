------------------------------- MODULE Linear -------------------------------
(* What a component has to do so that block solvers of an enclosing model      *)
(* find total derivatives: the solver's contract, of which the integrator's    *)
(* part is checked on the code by TraceOuter.                                  *)
(*                                                                             *)
(* Nodes 1..N with one output each; A[i][j] is the partial derivative of       *)
(* output i with respect to output j (nilpotent here, not necessarily in the   *)
(* order in which nodes are visited).  Solving d_i - sum_j A_ij d_j = r_i by   *)
(* block Gauss-Seidel (each node in turn) or Jacobi (all from the last sweep): *)
(* the solver prefills the result vector of a node and asks for products with  *)
(* one source in scope at a time; entries out of scope hold old values.        *)
(* Reverse mode: the node is given its seed once and adds A_ij b_i into the    *)
(* vectors of the sources in scope, which several nodes share.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, M,        \* nodes, modulus
          Accumulates, \* the component adds to the result vector
          Scoped       \* the component ignores what is out of scope
VARIABLES A, r, d, old, mode, solver, sweep, i, todo, acc
vars == <<A, r, d, old, mode, solver, sweep, i, todo, acc>>
Node == 1..N
Val == 0..M - 1

(* strictly lower triangular up to a permutation of the nodes *)
Perms == {p \in [Node -> Node] : \A a, b \in Node : a # b => p[a] # p[b]}
Mats == {[a \in Node |-> [b \in Node |-> IF p[a] > p[b] THEN w[a] ELSE 0]] :
           p \in Perms, w \in [Node -> 1..M - 1]}
RECURSIVE SumTo(_, _)
SumTo(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumTo(f, k - 1)
Coef(a, b) == IF mode = "fwd" THEN A[a][b] ELSE A[b][a]

Init ==
  /\ A \in Mats /\ r \in [Node -> Val]
  /\ mode \in {"fwd", "rev"} /\ solver \in {"gs", "jac"}
  /\ d = [a \in Node |-> 0] /\ old = d
  /\ sweep = 0 /\ i = 0 /\ todo = {} /\ acc = 0

(* start of node i's turn: the result vector holds the right hand side *)
Turn == /\ todo = {} /\ i < N /\ sweep <= N
        /\ i' = i + 1
        /\ acc' = r[i + 1]
        /\ todo' = Node \ {i + 1}
        /\ UNCHANGED <<A, r, d, old, mode, solver, sweep>>
Src(j) == IF solver = "gs" THEN d[j] ELSE old[j]
(* a product with source j in scope (the solver may take any order) *)
Product ==
  \E j \in todo :
    LET v == IF Scoped THEN Coef(i, j) * Src(j)
             ELSE SumTo([b \in Node |-> Coef(i, b) * Src(b)], N)
    IN /\ acc' = IF Accumulates THEN (acc + v) % M ELSE v % M
       /\ todo' = todo \ {j}
       /\ IF todo' = {} THEN d' = [d EXCEPT ![i] = acc'] ELSE d' = d
       /\ UNCHANGED <<A, r, old, mode, solver, sweep, i>>
EndSweep == /\ todo = {} /\ i = N /\ sweep <= N
            /\ sweep' = sweep + 1 /\ i' = 0 /\ old' = d
            /\ UNCHANGED <<A, r, d, mode, solver, todo, acc>>
Next == Turn \/ Product \/ EndSweep
Spec == Init /\ [][Next]_vars

Solved == \A a \in Node :
            d[a] = (r[a] + SumTo([b \in Node |-> Coef(a, b) * d[b]], N)) % M
(* after as many sweeps as there are nodes the system is solved *)
Composed == sweep = N + 1 => Solved
=============================================================================
