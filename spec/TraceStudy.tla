----------------------------- MODULE TraceStudy ----------------------------
(* The problems of the convergence study.  State: the result files, with the  *)
(* last error recorded in each, and which file was named for which purpose.   *)
EXTENDS TraceBase, Odes
VARIABLES files, named
vars == <<tr, l, files, named>>
Init == tr \in 1..Len(Traces) /\ l = 1 /\ files = << >> /\ named = {}
Rest == UNCHANGED <<files, named>>
Written == {files[i].path : i \in 1..Len(files)}
File(p) == files[CHOOSE i \in 1..Len(files) : files[i].path = p]
LastErr(p) == File(p).err
Without(p) == SelectSeq(files, LAMBDA f : f.path # p)
---------------------------------------------------------------------------
(* names: sequences of character codes; lower case, spaces become underscores,*)
(* commas vanish *)
Lower(c) == IF c \in 65..90 THEN c + 32 ELSE IF c = 32 THEN 95 ELSE c
Normal(s) == LET n == SelectSeq(s, LAMBDA c : c # 44) IN [i \in 1..Len(n) |-> Lower(n[i])]
Kinds == {"adaptive", "avg_homogeneous", "homogeneous"}
Path == /\ Op("path")
        /\ Clause("refused", (E.refused = 1) = (E.kind \notin Kinds))
        /\ IF E.refused = 1 THEN Rest
           ELSE LET key == <<E.kind, Normal(E.name), E.step>> IN
                /\ Clause("folder", E.dir = E.kind /\ E.root = T.root)
                /\ \A q \in named : Clause("own-file", (q.key = key) = (q.path = E.path))
                /\ named' = named \union {[key |-> key, path |-> E.path]}
                /\ UNCHANGED files
        /\ Advance
Exists == Op("exists") /\ Clause("exists", (E.res = 1) = (E.path \in Written)) /\ Rest /\ Advance
Remove == /\ Op("remove") /\ files' = Without(E.path) /\ UNCHANGED named /\ Advance
RECURSIVE FSum(_)
FSum(x) == IF x = << >> THEN Zero ELSE Add(x[1], FSum(Tail(x)))
Tiny6 == DivI(DivI(OfInt(1), 1000), 1000)
Mean(paths) == IF \A i \in 1..Len(paths) : paths[i] \in Written
               THEN DivI(FSum([i \in 1..Len(paths) |-> LastErr(paths[i])]), Len(paths))
               ELSE Tiny6
Tolerance ==
  /\ Op("tolerance")
  /\ Clause("tolerance", Same(E.res, Mean(E.paths)))
  /\ Rest /\ Advance
Generate == /\ Op("generate")
            /\ Clause("returned", E.same = 1)
            /\ Clause("directory", (E.after = 1) = (E.before = 1 \/ E.ext \in {"h5", "png"}))
            /\ Rest /\ Advance
Import == Op("import") /\ Clause("scripts-importable", E.ok = 1) /\ Rest /\ Advance
(* the problem: E.kind, E.par, and what was asked for *)
Make == /\ Op("make")
        /\ Clause("quantities", E.quantities = (IF E.kind = "pr" THEN <<"x">> ELSE <<"y_1", "y_2">>))
        /\ Rest /\ Advance
---------------------------------------------------------------------------
(* execution: E.x[i]: state (per quantity), E.t[i]: time, E.err[i]: error     *)
(* measure, E.dev[i]: deviation from the solution as read back, i from 1;     *)
(* tableau: E.A, E.b, E.bh                                                    *)
S == Len(E.b)
NX == Len(E.t)
RECURSIVE Acc(_, _, _)
(* sum of w[j] * k[j] *)
Acc(w, k, n) == IF n = 0 THEN Zero ELSE Add(Acc(w, k, n - 1), Mul(w[n], k[n]))
RECURSIVE PrK(_, _, _, _)
(* stage updates of Prothero-Robinson: solved for, as the stage is linear *)
PrK(x, t, h, n) ==
  IF n = 0 THEN << >>
  ELSE LET k == TLCEval(PrK(x, t, h, n - 1))
           ti == Add(t, Mul(h, E.c[n]))
           num == PrF(E.par, Add(x, Mul(h, Acc(E.A[n], k, n - 1))), ti)
       IN Append(k, Mul(num, Recip(Sub(OfInt(1), Mul(E.par, Mul(h, E.A[n][n]))))))
(* Kaps with an explicit tableau; E.inv = 1/eps, an integer *)
RECURSIVE KapsK(_, _, _)
KapsK(x, h, n) ==
  IF n = 0 THEN << >>
  ELSE LET k == TLCEval(KapsK(x, h, n - 1))
           y == [q \in 1..2 |-> Add(x[q], Mul(h, Acc(E.A[n], [j \in 1..(n - 1) |-> k[j][q]], n - 1)))]
       IN Append(k, TLCEval(<<Scale(E.inv, K1F(E.par, y[1], y[2])), K2F(y[1], y[2])>>))
New(x, k, h) == Add(x, Mul(h, Acc(E.b, k, S)))
Est(k, h) == Mul(h, Sub(Acc(E.b, k, S), Acc(E.bh, k, S)))
Eq(x, y) == Close(x, y, E.tol)
ErrOK(i, e) == Eq(Mul(E.err[i], E.err[i]), FSum([q \in 1..Len(e) |-> Mul(e[q], e[q])]))
StepOK(i) ==
  LET h == Sub(E.t[i], E.t[i - 1])  x == E.x[i - 1] IN
  CASE E.kind = "pr" ->
         LET k == PrK(x[1], E.t[i - 1], h, S)
         IN /\ Clause("step", Eq(E.x[i][1], New(x[1], k, h)))
            /\ Clause("error-measure", ErrOK(i, <<Est(k, h)>>))
    [] E.kind = "kaps" /\ E.impl = 0 ->
         LET k == KapsK(x, h, S)
             kq(q) == [j \in 1..S |-> k[j][q]]
         IN /\ \A q \in 1..2 : Clause("step", Eq(E.x[i][q], New(x[q], kq(q), h)))
            /\ Clause("error-measure", ErrOK(i, <<Est(kq(1), h), Est(kq(2), h)>>))
    [] OTHER ->  \* one stage of weight one: h k is the difference of the states
         LET d == [q \in 1..2 |-> Sub(E.x[i][q], x[q])]
             y == [q \in 1..2 |-> Add(x[q], Mul(E.A[1][1], d[q]))]
         IN /\ Clause("step", Eq(Mul(E.par, d[1]), Mul(h, K1F(E.par, y[1], y[2]))))
            /\ Clause("step", Eq(d[2], Mul(h, K2F(y[1], y[2]))))
            /\ LET w == Sub(OfInt(1), E.bh[1])
               IN Clause("error-measure", ErrOK(i, [q \in 1..2 |-> Mul(w, d[q])]))
DevOK(i) ==
  LET d == Sub(E.t[i], E.t[1])
      s == IF E.kind = "pr" THEN <<PrS(E.par, E.x[1][1], E.t[1], E.t[i])>> ELSE KapsS(E.x[1][2], d)
  IN \A q \in 1..Len(s) : Clause("deviation", Eq(E.dev[i][q], Abs(Sub(E.x[i][q], s[q]))))
Solution ==
  /\ Op("solution")
  /\ LET s == IF E.kind = "pr" THEN <<PrS(E.par, E.y0[1], E.t0, E.t)>>
              ELSE KapsS(E.y0[2], Sub(E.t, E.t0))
     IN Clause("solution", Len(E.x) = Len(s) /\ \A q \in 1..Len(s) : Same(E.x[q], s[q]))
  /\ Rest /\ Advance
Execute ==
  /\ Op("execute")
  /\ Clause("initial-values", IF E.kind = "pr" THEN Eq(E.x[1][1], Root)
                              ELSE Eq(E.x[1][1], OfInt(1)) /\ Eq(E.x[1][2], OfInt(1)))
  /\ Clause("initial-time", E.t[1] = Zero)
  /\ Clause("tolerance", E.paths # << >> => Same(E.ctol, Mean(E.paths)))
  /\ IF E.src # "" THEN  \* as many steps as another run made, of the same size
       /\ Clause("number-of-steps", NX = File(E.src).n + 1)
       /\ \A i \in 2..NX : Clause("step-size",
            Eq(Scale(File(E.src).n, Sub(E.t[i], E.t[i - 1])), E.end))
     ELSE IF E.n > 0 THEN /\ Clause("number-of-steps", NX = E.n + 1)
                     /\ \A i \in 2..NX : Clause("step-size", Eq(Sub(E.t[i], E.t[i - 1]), E.h))
                ELSE /\ Clause("final-time", Same(E.t[NX], E.end))
                     /\ \A i \in 2..NX : /\ Clause("forward", Less(E.t[i - 1], E.t[i]))
                                         /\ Clause("accurate", ~Less(E.ctol, Sub(E.err[i], Unit(FL - 2))))
  /\ \A i \in 2..NX : StepOK(i)
  /\ \A i \in 1..NX : DevOK(i)
  /\ Clause("last-error", E.last = E.err[NX])
  /\ files' = Append(Without(E.path), [path |-> E.path, err |-> E.err[NX], n |-> NX - 1])
  /\ UNCHANGED named /\ Advance
Next == \/ Path \/ Exists \/ Remove \/ Tolerance \/ Generate \/ Make \/ Execute \/ Solution \/ Import
        \/ (Crash /\ Rest /\ Advance) \/ (Finish /\ Rest)
Spec == Init /\ [][Next]_vars
=============================================================================
