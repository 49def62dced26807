------------------------------ MODULE DaeSystem ------------------------------
(* DAESystem: join, substitute_variable, convert_from_tau_to_time and the   *)
(* queries has_variable / depends_on / type, over linear equations.         *)
EXTENDS LinExpr, TLC
Ok(w) == [w |-> w, out |-> "ok"]
Reject(w) == [w |-> w, out |-> "rejected"]
SubstSys(s, vs, es) == [s EXCEPT !.ode = SubstSeq(@, vs, es), !.alg = SubstSeq(@, vs, es),
   !.x = SubstSeq(@, vs, es), !.y = SubstSeq(@, vs, es), !.p = SubstSeq(@, vs, es)]
(* the joined system runs on this system's clock *)
Join(w, op) ==
  LET a == w[op.m] b == w[op.from]
      j == [a EXCEPT !.ode = @ \o b.ode, !.alg = @ \o b.alg, !.x = @ \o b.x, !.y = @ \o b.y, !.p = @ \o b.p]
      j1 == SubstSys(j, <<b.t>>, <<Sym(a.t)>>)
      j2 == IF a.tau # "" /\ b.tau # "" THEN SubstSys(j1, <<b.tau>>, <<Sym(a.tau)>>) ELSE j1
  IN Ok([w EXCEPT ![op.m] = j2])
SubstVar(w, op) == Ok([w EXCEPT ![op.m] = SubstSys(w[op.m], op.vars, op.exprs)])
(* tau = (t - tk) / h ; coefficients of tau are multiples of every h used *)
DivE(e, h) == [a \in DOMAIN e |-> e[a] \div h]
TauExpr(e, s, tk, h) == LET c == Coef(e, s.tau) \div h IN
   Add([a \in DOMAIN e \ {s.tau} |-> e[a]], Add(Scale(c, Sym(s.t)), Const(-c * tk)))
Convert(w, op) ==
  LET s == w[op.m] IN
  IF s.tau = "" THEN Reject(w)
  ELSE Ok([w EXCEPT ![op.m] = [s EXCEPT !.ode = [i \in 1..Len(@) |-> TauExpr(@[i], s, op.tk, op.h)],
                                       !.alg = [i \in 1..Len(@) |-> TauExpr(@[i], s, op.tk, op.h)]]])
Apply(w, op) == CASE op.op = "join" -> Join(w, op) [] op.op = "subst" -> SubstVar(w, op) [] op.op = "tau" -> Convert(w, op)
Has(s, v) == \E e \in RangeOf(s.x) \cup RangeOf(s.y) \cup RangeOf(s.p) : e = Sym(v)
Dep(s, v) == \E e \in RangeOf(s.ode) \cup RangeOf(s.alg) : Coef(e, v) # 0
ProjS(s, asked) == [x |-> s.x, y |-> s.y, p |-> s.p, ode |-> s.ode, alg |-> s.alg,
   type |-> IF s.alg = <<>> THEN "ode" ELSE "dae",
   has |-> [v \in asked |-> Has(s, v) \/ v = s.t \/ (s.tau # "" /\ v = s.tau)], dep |-> [v \in asked |-> Dep(s, v)],
   simulable |-> (s.tau = "" \/ ~Dep(s, s.tau))]
Square(s) == Len(s.x) = Len(s.ode) /\ Len(s.y) = Len(s.alg)
Frame(w, op, w2) == \A m \in DOMAIN w : m # op.m => w2[m] = w[m]
Inv0(w, op, res) == Frame(w, op, res.w) /\ (res.out = "rejected" => res.w = w)
   /\ ((op.op = "tau" /\ res.out = "ok") => ~Dep(res.w[op.m], w[op.m].tau))
   /\ ((op.op = "join") => ~Dep(res.w[op.m], w[op.from].t))
=============================================================================
