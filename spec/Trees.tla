------------------------------- MODULE Trees -------------------------------
(* Rooted trees up to order 6, and the order conditions they stand for.       *)
(* A tree is the non-increasing sequence of the numbers of its subtrees.      *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE Forests(_, _, _), TreesTo(_), SumOrd(_, _), ProdGam(_, _)
(* all forests of total order n of trees with numbers up to mx; ord: orders   *)
Forests(n, mx, ord) ==
  IF n = 0 THEN {<< >>}
  ELSE UNION {{<<i>> \o f : f \in Forests(n - ord[i], i, ord)} :
                i \in {j \in 1..mx : ord[j] <= n}}
SumOrd(t, ord) == IF t = << >> THEN 1 ELSE ord[t[1]] + SumOrd(Tail(t), ord)
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN << >> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
TreesTo(n) ==
  IF n = 0 THEN [t |-> << >>, o |-> << >>]
  ELSE LET r == TreesTo(n - 1)
           new == SeqOf(Forests(n - 1, Len(r.t), r.o))
       IN [t |-> r.t \o new, o |-> r.o \o [i \in 1..Len(new) |-> n]]
MaxOrder == 6
All == TreesTo(MaxOrder)
TreeOf == All.t
OrderOf == All.o
NTrees(n) == Cardinality({i \in DOMAIN OrderOf : OrderOf[i] <= n})
(* density: product of the orders of all its subtrees                         *)
RECURSIVE DensTo(_)
ProdGam(t, g) == IF t = << >> THEN 1 ELSE g[t[1]] * ProdGam(Tail(t), g)
DensTo(i) == IF i = 0 THEN << >>
             ELSE LET g == DensTo(i - 1) IN Append(g, OrderOf[i] * ProdGam(TreeOf[i], g))
Density == DensTo(Len(TreeOf))
(* known numbers: 1, 1, 2, 4, 9, 20 trees; the tall tree of order n has n!,   *)
(* the bushy one n                                                            *)
ASSUME \A p \in {<<1, 1>>, <<2, 2>>, <<3, 4>>, <<4, 8>>, <<5, 17>>, <<6, 37>>} :
         NTrees(p[1]) = p[2]
ASSUME {Density[i] : i \in {j \in DOMAIN OrderOf : OrderOf[j] = 4}} = {4, 8, 12, 24}
ASSUME {Density[i] : i \in {j \in DOMAIN OrderOf : OrderOf[j] = 5}}
         = {5, 10, 15, 20, 30, 40, 60, 120}   \* 20 occurs twice
===========================================================================
