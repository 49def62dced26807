--------------------------- MODULE MC_OptProblem ----------------------------
EXTENDS OptProblem, Json
CONSTANTS D, Focus
VARIABLES s, log
vars == <<s, log>>
Df == [k |-> "default"]
Sc(v) == [k |-> "scalar", v |-> v]
Ve(v) == [k |-> "vec", v |-> v]
Pb == [k |-> "par"]
Vr(form, names, lb, ub) == [op |-> "var", form |-> form, names |-> names, lb |-> lb, ub |-> ub]
Pr(form, names) == [op |-> "par", form |-> form, names |-> names]
InS(sh, es, lb, ub) == [op |-> "ineq", shape |-> sh, exprs |-> es, lb |-> lb, ub |-> ub]
In(es, lb, ub) == InS("col", es, lb, ub)
EqnS(sh, es, rhs) == [op |-> "equ", shape |-> sh, exprs |-> es, rhs |-> rhs]
Eqn(es, rhs) == EqnS("col", es, rhs)
Own == [k |-> "own"]
Co(rel, side, es, c) == [op |-> "cons", rel |-> rel, side |-> side, exprs |-> es, c |-> c]
Ob(k, c) == [op |-> "obj", k |-> k, c |-> c]
SoX(np, cd, x0, lx, lg) == [op |-> "solve", np |-> np, cd |-> cd, x0 |-> x0, lamx |-> lx, lamg |-> lg]
So(np) == SoX(np, "default", TRUE, FALSE, FALSE)

Free(nm, n) == {vs \in {[i \in 1..n |-> IF n = 1 THEN nm ELSE nm \o ToString(i - 1)]} : RangeOf(vs) \cap (RangeOf(s.x) \cup RangeOf(s.p)) = {}}
ForVar == {Df, Sc(-2), Sc(1), Ve(<<0>>)}
VarOps ==
  { Vr(f, vs, l, u) : f \in {"create", "include"}, vs \in Free("a", 1) \cup Free("b", 2), l \in {Df, Sc(-1), Sc(2)}, u \in {Df, Sc(3), Sc(2), Ve(<<1>>)} }
  \cup { Vr(f, vs, l, u) : f \in {"create", "include"}, vs \in Free("b", 2), l \in {Ve(<<-1, 0>>), Ve(<<-1, 2>>), Ve(<<-1, 1>>)}, u \in {Ve(<<1, 1>>), Sc(2), Ve(<<1, 2, 3>>)} }
  \cup { Vr("include", vs, l, Df) : vs \in Free("b", 2), l \in {Ve(<<1, 2, 3>>)} \cup (IF s.p = <<>> THEN {} ELSE {Pb}) }
  \cup { Vr("create", vs, Df, Df) : vs \in Free("c", 3) }
  \cup { Vr(f, vs, l, u) : f \in {"create", "include"}, vs \in Free("c", 3), l \in {Ve(<<-1, 0>>), Ve(<<-1, 0, 1>>)}, u \in {Ve(<<4, 5>>), Ve(<<2, 3, 4>>), Ve(<<2, 3, 0>>), Df} }
  \cup (IF s.p = <<>> THEN {} ELSE { Vr("include", vs, l, Pb) : vs \in Free("a", 1) \cup Free("b", 2), l \in {Df, Sc(0), Pb} })
  \cup (IF s.p = <<>> THEN {} ELSE { Vr("include", vs, Pb, u) : vs \in Free("a", 1), u \in {Df, Sc(0)} })
ParOps == { Pr(f, vs) : f \in {"create", "include"}, vs \in Free("q", 1) \cup Free("r", 2) }
AllV == s.x \o s.p
XE(k) == Rich(AllV, k, k - 2)
ScE == XE(2)
VeE3 == <<XE(3), Sub(XE(2), Const(4)), XE(5)>>
VeE == <<XE(3), Sub(XE(2), Const(4))>>
ConOps == IF s.x = <<>> THEN {} ELSE
  { In(<<ScE>>, l, u) : l \in {Df, Sc(-1), Sc(2)}, u \in {Df, Sc(1), Sc(2), Ve(<<3>>)} }
  \cup { In(VeE, l, u) : l \in {Df, Sc(-1), Ve(<<0, 1>>), Ve(<<0, 5>>)}, u \in {Df, Sc(4), Ve(<<1, 2>>), Ve(<<0, 2>>), Ve(<<1, 2, 3>>)} }
  \cup { In(<<ScE>>, l, Df) : l \in IF s.p = <<>> THEN {} ELSE {Pb} }
  \cup { Eqn(es, r) : es \in {<<ScE>>, VeE}, r \in {Df, Sc(2), Sc(0), Ve(<<3, 4>>), Ve(<<1, 2, 3>>)} \cup (IF s.p = <<>> THEN {} ELSE {Pb}) }
  \cup { Co(rel, sd, <<ScE>>, Sc(c)) : rel \in {"le", "ge", "lt", "gt", "eq"}, sd \in {"left", "right"}, c \in {0, 2} }
  \cup { Co(rel, sd, VeE, c) : rel \in {"le", "ge", "eq"}, sd \in {"left", "right"}, c \in {Sc(1), Ve(<<1, 2>>)} }
  \cup { Co(rel, "both", <<ScE>>, Sc(0)) : rel \in {"le", "eq"} }
  \cup { Co("none", "none", <<ScE>>, Sc(0)) }
  \cup { In(VeE3, l, u) : l \in {Df, Ve(<<0, 1>>), Ve(<<0, 1, 2>>)}, u \in {Df, Ve(<<6, 7>>), Ve(<<6, 7, 8>>), Ve(<<6, 7, 1>>)} }
  \cup { Eqn(VeE3, r) : r \in {Ve(<<3, 4>>), Ve(<<3, 4, 5>>)} }
  \cup { InS("row", VeE, Sc(-1), Sc(3)), EqnS("row", VeE, Sc(1)), EqnS("row", VeE, Df) }
  \cup { In(<<ScE>>, l, u) : l \in {Df, Own}, u \in {Own, Sc(3)} } \cup { Eqn(<<ScE>>, Own) }
  \cup (IF s.p = <<>> THEN {} ELSE
    { In(<<ScE>>, Df, Pb), In(VeE, Sc(1), Pb), In(VeE, Pb, Pb), Eqn(VeE, Pb) }
    \cup { Co(rel, sd, <<Rich(s.p, 1, 2)>>, Sc(c)) : rel \in {"le", "ge", "eq"}, sd \in {"left", "right"}, c \in {0, 2} }
    \cup { Co(rel, sd, <<ScE>>, Sc(0)) : rel \in {"le", "eq"}, sd \in {"varpar", "parvar"} })
  \cup { Co(rel, sd, <<ScE>>, Sc(0)) : rel \in {"le", "eq"}, sd \in {"neither", "foreign"} }
ObjOps == IF s.x = <<>> THEN {} ELSE
  { Ob("scalar", [v \in RangeOf(s.x) |-> k]) : k \in {1, 3} } \cup { Ob("scalar", [v \in {s.x[1]} |-> 2]) }
  \cup { Ob("list1", [v \in RangeOf(s.x) |-> 4]) }
  \cup (IF Len(s.x) > 1 THEN {Ob("vector", Zero), Ob("list2", Zero)} ELSE {})
OptOps == { [op |-> "opt", name |-> nm] : nm \in {"first", "second"} }
SolveOps == IF s.x = <<>> \/ ~s.f.has THEN {} ELSE { So(np) : np \in {0, Len(s.p), Len(s.p) + 1} }
  \cup { SoX(Len(s.p), cd, x0, lx, lg) : cd \in {"default", "own"}, x0 \in BOOLEAN, lx \in BOOLEAN, lg \in BOOLEAN }

(* "solve" focus: separable problems whose minimiser the specification knows *)
Tgt == [v \in RangeOf(s.x) |-> IF v = s.x[1] THEN 3 ELSE -2]
BoxOps ==
  { Vr(f, vs, l, u) : f \in {"create"}, vs \in Free("a", 1) \cup Free("b", 2), l \in {Df, Sc(-1)}, u \in {Df, Sc(1), Sc(5)} }
  \cup { Vr("include", vs, l, u) : vs \in Free("b", 2), l \in {Ve(<<-1, 0>>)}, u \in {Ve(<<1, 4>>)} }
  \cup (IF s.x = <<>> THEN {} ELSE
    { In(<<Add(Sym(v), Const(k))>>, l, u) : v \in RangeOf(s.x), k \in {0, 1}, l \in {Df, Sc(0)}, u \in {Df, Sc(2)} }
    \cup { Co(rel, sd, <<Add(Sym(v), Const(1))>>, Sc(1)) : rel \in {"le", "ge", "lt"}, sd \in {"left", "right"}, v \in RangeOf(s.x) }
    \cup { Ob("scalar", Tgt), Ob("scalar", [v \in RangeOf(s.x) |-> 2]) })
  \cup (IF Solvable(s) THEN {So(0)} ELSE {})

Stimuli == IF Focus = "box" THEN BoxOps ELSE VarOps \cup ParOps \cup ConOps \cup ObjOps \cup SolveOps \cup OptOps
Preludes == IF Focus = "box" THEN { <<>>, <<Vr("create", <<"a">>, Df, Sc(5)), Ob("scalar", [v \in {"a"} |-> 3])>>,
                                    <<Vr("create", <<"a">>, Sc(-1), Df), Ob("scalar", [v \in {"a"} |-> -3]), So(0)>> }
            ELSE { <<>>, <<Vr("create", <<"a">>, Df, Sc(3))>>, <<Vr("include", <<"b0", "b1">>, Sc(-2), Df), Pr("create", <<"q">>)>>,
                   <<Vr("create", <<"b0", "b1">>, Sc(-2), Df), Pr("create", <<"q">>), Ob("scalar", [v \in {"b0", "b1"} |-> 1]), So(1)>> }
Entry(op, res) == [op |-> op, out |-> res.out, val |-> res.val]
RECURSIVE RunOps(_, _, _)
RunOps(ss, ops, lg) == IF ops = <<>> THEN [s |-> ss, log |-> lg]
  ELSE LET res == Apply(ss, Head(ops)) IN RunOps(res.s, Tail(ops), Append(lg, Entry(Head(ops), res)))
Init == \E pre \in Preludes : LET r == RunOps(Init0, pre, <<>>) IN s = r.s /\ log = r.log
Do(op) == LET res == Apply(s, op) IN
          /\ Assert(StepInv(s, op, res), <<"StepInv", op>>)
          /\ s' = res.s /\ log' = Append(log, Entry(op, res))
Next == TLCGet("level") <= D /\ \E op \in Stimuli : Do(op)
Spec == Init /\ [][Next]_vars
View == s
Emit == PrintT(ToJson([lvl |-> TLCGet("level"), h |-> log', post |-> Proj(s'), min |-> IF Solvable(s') THEN Minimiser(s') ELSE <<>>]))
Inv == OptInv(s)
=============================================================================
