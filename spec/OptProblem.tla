----------------------------- MODULE OptProblem -----------------------------
(* The optimization-problem container (yaocptool/optimization).             *)
(*   min f(x,p)   s.t.  glb <= g(x,p) <= gub,  xlb <= x <= xub               *)
(* A bound is [k |-> "default"] , [k |-> "scalar", v |-> n], or              *)
(* [k |-> "vec", v |-> seq], or [k |-> "par"] (depends on a parameter), or   *)
(* [k |-> "own"] (depends on a variable of the problem).                     *)
EXTENDS LinExpr, TLC
INF == 1000

Init0 == [x |-> <<>>, lb |-> <<>>, ub |-> <<>>, p |-> <<>>, g |-> <<>>, glb |-> <<>>, gub |-> <<>>,
          f |-> [has |-> FALSE, c |-> Zero], opts |-> {}, others |-> {}]
Ok(s) == [s |-> s, out |-> "ok", val |-> <<>>]
Reject(s) == [s |-> s, out |-> "rejected", val |-> <<>>]

Rep(v, n) == [i \in 1..n |-> v]
Expand(b, n, dflt) ==
  CASE b.k = "default" -> Rep(dflt, n)
    [] b.k = "scalar" -> Rep(b.v, n)
    [] b.k = "vec" -> IF Len(b.v) = 1 THEN Rep(b.v[1], n) ELSE b.v
    [] b.k \in {"par", "own"} -> <<>>
Symbolic(b) == b.k \in {"par", "own"}
BadBounds(l, u, n) == \/ Len(l) # n \/ Len(u) # n
                      \/ \E i \in 1..n : i <= Len(l) /\ i <= Len(u) /\ l[i] > u[i]

Var(s, op) ==
  LET n == Len(op.names)
      l == Expand(op.lb, n, -INF)
      u == Expand(op.ub, n, INF)
  IN IF Symbolic(op.lb) \/ Symbolic(op.ub) \/ BadBounds(l, u, n) THEN Reject(s)
     ELSE Ok([s EXCEPT !.x = @ \o op.names, !.lb = @ \o l, !.ub = @ \o u])
Par(s, op) == Ok([s EXCEPT !.p = @ \o op.names])
AddG(s, es, l, u) == [s EXCEPT !.g = @ \o es, !.glb = @ \o l, !.gub = @ \o u]
Ineq(s, op) ==
  LET n == Len(op.exprs)
      l == Expand(op.lb, n, -INF)
      u == Expand(op.ub, n, INF)
  IN IF op.shape = "row" \/ Symbolic(op.lb) \/ Symbolic(op.ub) \/ BadBounds(l, u, n) THEN Reject(s) ELSE Ok(AddG(s, op.exprs, l, u))
Equ(s, op) ==
  LET n == Len(op.exprs)
      r == Expand(op.rhs, n, 0)
  IN IF op.shape = "row" \/ Symbolic(op.rhs) \/ Len(r) # n THEN Reject(s) ELSE Ok(AddG(s, op.exprs, r, r))
(* include_constraint(lhs rel rhs): exactly one side may depend on the problem;  *)
(* "both" / "varpar": both do; "neither": none; "none": no relation at all;       *)
(* "foreign": the other side is a symbol the problem does not know                *)
Cons(s, op) ==
  LET n == Len(op.exprs)
      c == Expand(op.c, n, 0)
      upper == (op.rel \in {"le", "lt"} /\ op.side = "left") \/ (op.rel \in {"ge", "gt"} /\ op.side = "right")
  IN IF op.side \notin {"left", "right"} THEN Reject(s)
     ELSE IF op.rel = "eq" THEN Ok(AddG(s, op.exprs, c, c))
     ELSE IF upper THEN Ok(AddG(s, op.exprs, Rep(-INF, n), c))
     ELSE Ok(AddG(s, op.exprs, c, Rep(INF, n)))
(* objective: the sum over v of (v - c[v])^2, given as an expression or as a   *)
(* list of one expression; "vector" and "list2" have two entries                *)
Obj(s, op) == IF op.k \in {"vector", "list2"} THEN Reject(s) ELSE Ok([s EXCEPT !.f = [has |-> TRUE, c |-> op.c]])
(* solve(x0, p, ...): the solver sees the problem as it is now, with these      *)
(* values.  cd: "default" or "own", a call dictionary of the caller (bounds      *)
(* -7..8 and -9..9, x0 of fives), which the call must leave as it was.           *)
Solve(s, op) ==
  LET n == Len(s.x)
      m == Len(s.g)
      own == op.cd = "own"
  IN IF op.np # Len(s.p) THEN Reject(s)
     ELSE [s |-> s, out |-> "ok",
           val |-> [x |-> s.x, p |-> s.p, g |-> s.g, f |-> s.f,
                    lbx |-> IF own THEN Rep(-7, n) ELSE s.lb, ubx |-> IF own THEN Rep(8, n) ELSE s.ub,
                    lbg |-> IF own THEN Rep(-9, m) ELSE s.glb, ubg |-> IF own THEN Rep(9, m) ELSE s.gub,
                    x0 |-> IF op.x0 THEN [i \in 1..n |-> i] ELSE IF own THEN Rep(5, n) ELSE <<>>,
                    lamx |-> IF op.lamx THEN [i \in 1..n |-> 20 + i] ELSE <<>>,
                    lamg |-> IF op.lamg THEN [i \in 1..m |-> 40 + i] ELSE <<>>,
                    kept |-> TRUE, pv |-> [i \in 1..op.np |-> 10 + i]]]
(* an option set on this problem; no other problem sees it *)
Opt(s, op) == Ok([s EXCEPT !.opts = @ \cup {op.name}])
Apply(s, op) ==
  CASE op.op = "var" -> Var(s, op)
    [] op.op = "par" -> Par(s, op)
    [] op.op = "ineq" -> Ineq(s, op)
    [] op.op = "equ" -> Equ(s, op)
    [] op.op = "cons" -> Cons(s, op)
    [] op.op = "obj" -> Obj(s, op)
    [] op.op = "solve" -> Solve(s, op)
    [] op.op = "opt" -> Opt(s, op)
Proj(s) == s

(* The minimiser, when every constraint involves one variable with unit       *)
(* coefficient and no parameter: project the targets on the feasible box.     *)
MaxS(S) == CHOOSE v \in S : \A w \in S : v >= w
MinS(S) == CHOOSE v \in S : \A w \in S : v <= w
OnVar(e, v) == Coef(e, v) = 1 /\ DOMAIN e \subseteq {v, "one"}
BoxOnly(s) == \A j \in 1..Len(s.g) : \E v \in RangeOf(s.x) : OnVar(s.g[j], v)
Lo(s, i) == MaxS({s.lb[i]} \cup {s.glb[j] - Coef(s.g[j], "one") : j \in {j \in 1..Len(s.g) : OnVar(s.g[j], s.x[i])}})
Hi(s, i) == MinS({s.ub[i]} \cup {s.gub[j] - Coef(s.g[j], "one") : j \in {j \in 1..Len(s.g) : OnVar(s.g[j], s.x[i])}})
Solvable(s) == /\ s.f.has /\ BoxOnly(s) /\ Len(s.x) > 0
               /\ \A i \in 1..Len(s.x) : s.x[i] \in DOMAIN s.f.c /\ Lo(s, i) < Hi(s, i)
Clip(v, lo, hi) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v
Minimiser(s) == [i \in 1..Len(s.x) |-> Clip(s.f.c[s.x[i]], Lo(s, i), Hi(s, i))]

(* ---- properties of the design ----------------------------------------- *)
Aligned(s) == Len(s.x) = Len(s.lb) /\ Len(s.x) = Len(s.ub) /\ Len(s.g) = Len(s.glb) /\ Len(s.g) = Len(s.gub)
BoundsOrdered(s) == (\A i \in 1..Len(s.x) : s.lb[i] <= s.ub[i]) /\ (\A i \in 1..Len(s.g) : s.glb[i] <= s.gub[i])
OptInv(s) == Aligned(s) /\ BoundsOrdered(s) /\ Distinct(s.x)
Prefix(a, b) == Len(a) <= Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i]
StepInv(s, op, res) ==
  /\ res.out = "rejected" => res.s = s
  /\ \A k \in {"x", "lb", "ub", "p", "g", "glb", "gub"} : Prefix(s[k], res.s[k])
  /\ op.op = "solve" => res.s = s
  /\ res.s.others = s.others
=============================================================================
