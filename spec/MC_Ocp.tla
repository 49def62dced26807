------------------------------- MODULE MC_Ocp -------------------------------
EXTENDS Ocp, Json
CONSTANTS Focus, D
VARIABLES w, log
vars == <<w, log>>
Df == [k |-> "default", v |-> 0]
Sc(v) == [k |-> "scalar", v |-> v]
Dm(v) == [k |-> "dm", v |-> v]
Li(v) == [k |-> "list", v |-> v]
U(mop) == [op |-> "user", mop |-> mop]
UCr(s, kind, name, n) == U([op |-> "create", m |-> s, kind |-> kind, name |-> name, n |-> n])
UEq(s, xs, ode, alg) == U([op |-> "equations", m |-> s, form |-> "kw", xs |-> xs, ode |-> ode, alg |-> alg])
Mkp(s, x0, t0, tf) == [op |-> "make", s |-> s, x0 |-> x0, t0 |-> t0, tf |-> tf]
St(s, form, vs, ode, x0, hin, lo, hi) == [op |-> "state", s |-> s, form |-> form, vars |-> vs, ode |-> ode, x0 |-> x0, hin |-> hin, lo |-> lo, hi |-> hi]
Al(s, form, vs, alg, lo, hi, g) == [op |-> "algebraic", s |-> s, form |-> form, vars |-> vs, alg |-> alg, lo |-> lo, hi |-> hi, guess |-> g]
Ct(s, form, vs, lo, hi, dlo, dhi, g) == [op |-> "control", s |-> s, form |-> form, vars |-> vs, lo |-> lo, hi |-> hi, dlo |-> dlo, dhi |-> dhi, guess |-> g]
Pm(s, kind, form, how, vs, lo, hi) == [op |-> "param", s |-> s, kind |-> kind, form |-> form, how |-> how, vars |-> vs, lo |-> lo, hi |-> hi]
RmY(s, vs, eqi) == [op |-> "rmy", s |-> s, vars |-> vs, eqi |-> eqi]
RmU(s, vs) == [op |-> "rmu", s |-> s, vars |-> vs]
Cs(s, k, es, when, form) == [op |-> "constraint", s |-> s, k |-> k, exprs |-> es, when |-> when, form |-> form]
Co(s, k, e) == [op |-> "cost", s |-> s, k |-> k, e |-> e]
Gu(s, k, v) == [op |-> "guess", s |-> s, k |-> k, v |-> v]
Bd(s, base) == [op |-> "bounds", s |-> s, base |-> base]
Sp(s, k, v) == [op |-> "spoil", s |-> s, k |-> k, v |-> v]
Rs(s) == [op |-> "reset", s |-> s]
Xc(s) == [op |-> "coststate", s |-> s]
Rp(s, vs, es) == [op |-> "replaceP", s |-> s, vars |-> vs, exprs |-> es]
Pa(s, us, es, up) == [op |-> "parametrizeP", s |-> s, us |-> us, exprs |-> es, upar |-> up]
Cn(s, us, ys, rep, form) == [op |-> "connectP", s |-> s, us |-> us, ys |-> ys, replace |-> rep, form |-> form]
Mg(s, from) == [op |-> "mergeP", s |-> s, from |-> from]
Un(s, k, form, vs, mean, var, dist) == [op |-> "uncertain", s |-> s, k |-> k, form |-> form, vars |-> vs, mean |-> mean, var |-> var, dist |-> dist]
Ch(s, es, rhs, prob, form) == [op |-> "chance", s |-> s, exprs |-> es, rhs |-> rhs, prob |-> prob, form |-> form]

L(vs, a, k) == Rich(vs, a, k)
PreM(s, ny, nu) ==
  << UCr(s, "x", s \o "a", 2), UCr(s, "p", s \o "d", 1), UCr(s, "th", s \o "e", 1) >>
  \o (IF ny > 0 THEN <<UCr(s, "y", s \o "b", ny)>> ELSE <<>>) \o (IF nu > 0 THEN <<UCr(s, "u", s \o "c", nu)>> ELSE <<>>)
  \o LET us == IF nu = 0 THEN <<>> ELSE ElemNames(s \o "c", nu)
         ys == IF ny = 0 THEN <<>> ELSE ElemNames(s \o "b", ny)
     IN << UEq(s, <<s \o "a_0", s \o "a_1">>, <<L(<<s \o "a_1", s \o "d", "t:" \o s>> \o us, 2, 1), L(<<s \o "a_0", s \o "e", "tau:" \o s>> \o ys, 3, 0)>>,
              [i \in 1..ny |-> L(<<ys[i], s \o "a_0", "t:" \o s>> \o us, 2 + i, i)]) >>
Sym0(P) == P.m.x \o P.m.y \o P.m.upar \o P.m.p \o P.m.th \o <<P.m.t>>
Full(s) == LET us == ElemNames(s \o "c", 2) ys == ElemNames(s \o "b", 2) IN
  << Co(s, "L", L(<<s \o "a_0", "t:" \o s, "tau:" \o s>> \o us \o ys, 2, 7)), Co(s, "V", L(<<s \o "a_1", s \o "d">>, 3, 0)),
     Co(s, "S", L(<<s \o "a_0", s \o "e", "t:" \o s>> \o us, 4, 1)),
     Cs(s, "final", <<L(<<s \o "a_0", s \o "d", "t:" \o s>>, 2, 1)>>, "default", "vec"),
     Cs(s, "h", <<L(<<s \o "d">>, 3, 4)>>, "default", "vec"),
     Cs(s, "ineq", <<L(<<s \o "a_0", "t:" \o s>> \o us, 2, 1), L(ys, 2, 0)>>, "end", "vec"),
     Cs(s, "eq", <<L(<<s \o "a_1", "tau:" \o s>> \o us, 5, 0)>>, "start", "list") >>
GuessAll(s, nu, ny) == (IF nu > 0 THEN <<Gu(s, "ug", [i \in 1..nu |-> 10 + i]), Gu(s, "lastu", [i \in 1..nu |-> 20 + i])>> ELSE <<>>)
                       \o (IF ny > 0 THEN <<Gu(s, "yg", [i \in 1..ny |-> 30 + i])>> ELSE <<>>)
Preludes ==
  CASE Focus = "book" -> { PreM("a", 0, 0) \o <<Mkp("a", <<1, 2>>, 0, 4)>>, PreM("a", 2, 2) \o <<Mkp("a", <<1, 2>>, 1, 5)>>,
                           PreM("a", 2, 2) \o <<Mkp("a", <<1, 2>>, 0, 4)>> \o GuessAll("a", 2, 2),
                           PreM("a", 2, 2) \o <<Mkp("a", <<1, 2>>, 0, 4), Ct("a", "include", <<"uz">>, Sc(-7), Sc(7), Df, Df, <<>>), RmU("a", <<"uz">>), Rs("a")>>,
                           PreM("a", 2, 2) \o <<Mkp("a", <<>>, 0, 4)>> \o Full("a") }
    [] Focus = "trans" -> { PreM("a", 2, 2) \o <<Mkp("a", <<1, 2>>, 0, 4), Bd("a", 100)>> \o Full("a"),
                            PreM("a", 2, 2) \o <<Mkp("a", <<1, 2>>, 0, 4), Bd("a", 100)>> \o Full("a") \o GuessAll("a", 2, 2)
                              \o <<Ct("a", "include", <<"uz">>, Sc(-7), Sc(7), Sc(-2), Sc(2), <<5>>)>>,
                            PreM("a", 2, 2) \o <<Mkp("a", <<1, 2>>, 0, 4)>> \o Full("a") \o <<Gu("a", "yg", <<31, 32>>), Gu("a", "pos", <<>>)>> }
    [] Focus = "merge" -> { PreM("a", ny, nu) \o PreM("b", 2, 2) \o PreM("c", 0, 1) \o <<Mkp("a", <<1, 2>>, 0, 4), Mkp("b", <<3, 4>>, 0, 4), Mkp("c", <<5, 6>>, 0, tf)>>
                              \o <<Bd("a", 100), Pm("a", "p", "set", "set", <<"ad">>, Dm(<<-1>>), Dm(<<2>>)), Pm("c", "th", "set", "set", <<"ce">>, Dm(<<-3>>), Dm(<<4>>)),
                                  Pm("a", "th", "set", "set", <<"ae">>, Dm(<<-5>>), Dm(<<6>>)), Gu("a", "pos", <<>>)>> \o (IF tf = 4 THEN <<Gu("c", "pos", <<>>)>> ELSE <<>>)
                              \o (IF g THEN <<Bd("b", 200), Bd("c", 300), Pm("b", "p", "set", "set", <<"bd">>, Df, Dm(<<5>>)),
                                             Pm("b", "th", "set", "set", <<"be">>, Dm(<<-7>>), Dm(<<8>>)), Gu("b", "pos", <<>>)>> ELSE <<>>)
                              \o Full("b") \o (IF g THEN GuessAll("a", nu, ny) \o GuessAll("b", 2, 2) \o GuessAll("c", 1, 0) ELSE GuessAll("b", 2, 2)) :
                              ny \in {0, 2}, nu \in {0, 2}, g \in BOOLEAN, tf \in {4, 5} }
    [] Focus = "stoch" -> { PreM("a", 2, 2) \o <<Mkp("a", <<1, 2>>, 0, 4)>> }
Slots == IF Focus = "merge" THEN {"a", "b", "c"} ELSE {"a"}
New(vs) == RangeOf(vs) \cap DOMAIN w.nm = {}
P(s) == w.ps[s]
Whens == {"default", "start", "end"}
BookOps(s) ==
  LET ex == Sym0(P(s)) IN
  { St(s, f, vs, ode, x0, hin, lo, hi) : f \in {"create", "include"}, vs \in {v \in {<<"xz">>} : New(v)}, ode \in {<<>>, <<L(ex, 2, 1)>>},
      x0 \in {<<>>, <<8>>}, hin \in {<<>>, <<L(<<"xz">> \o ex, 3, 1)>>}, lo \in {Df, Dm(<<-1>>)}, hi \in {Df, Li(<<1>>)} }
  \cup { St(s, "include", vs, ode, <<8, 9>>, <<>>, lo, hi) : vs \in {v \in {<<"xw", "xv">>} : New(v)}, ode \in {<<L(ex, 2, 1), L(ex, 3, 1)>>, <<L(ex, 2, 1)>>},
      lo \in {Df, Li(<<-1, -2>>), Dm(<<-1>>)}, hi \in {Df, Li(<<1, 2>>), Dm(<<3, 4>>)} }
  \cup { St(s, "include", <<v>>, <<>>, <<8>>, <<>>, Df, Df) : v \in RangeOf(P(s).m.x) }
  \cup { St(s, "include", vs, <<>>, <<8, 9>>, <<>>, Df, Df) : vs \in {v \in {<<"xz">>} : New(v)} }
  \cup { Al(s, f, vs, alg, lo, hi, g) : f \in {"create", "include"}, vs \in {v \in {<<"yz">>} : New(v)}, alg \in {<<>>, <<L(ex \o <<"yz">>, 2, 1)>>}, lo \in {Df, Dm(<<-1>>), Dm(<<-1, -2>>)},
      hi \in {Df, Li(<<1>>)}, g \in {<<>>, <<6>>} }
  \cup { Al(s, "include", vs, <<>>, Li(<<-1, -2>>), hi, g) : vs \in {v \in {<<"yw", "yv">>} : New(v)}, hi \in {Dm(<<1, 2>>), Li(<<1>>)}, g \in {<<>>, <<6, 7>>} }
  \cup { Ct(s, f, vs, lo, hi, dlo, dhi, g) : f \in {"create", "include"}, vs \in {v \in {<<"uz">>} : New(v)}, lo \in {Df, Sc(-1)}, hi \in {Df, Li(<<1>>)},
      dlo \in {Df, Sc(-3)}, dhi \in {Df, Dm(<<3>>)}, g \in {<<>>, <<6>>} }
  \cup { Ct(s, "include", vs, lo, hi, dlo, Sc(3), g) : vs \in {v \in {<<"uw", "uv">>} : New(v)}, lo \in {Sc(-1), Li(<<-1, -2>>), Dm(<<-1, -2, -3>>)}, hi \in {Df, Dm(<<1, 2>>)},
      dlo \in {Df, Dm(<<-3, -4>>)}, g \in {<<>>, <<6, 7>>, <<6>>} }
  \cup { Pm(s, kd, "plain", h, vs, Df, Df) : kd \in {"p", "th"}, h \in {"create", "include"}, vs \in {v \in {<<"pz">>} : New(v)} }
  \cup { Pm(s, kd, "opt", h, vs, lo, hi) : kd \in {"p", "th"}, h \in {"create", "include"}, vs \in {v \in {<<"qz">>} : New(v)}, lo \in {Df, Dm(<<-1>>)}, hi \in {Df, Dm(<<2>>), Dm(<<1, 2>>)} }
  \cup { Pm(s, kd, "set", "set", <<v>>, lo, hi) : kd \in {"p"}, v \in RangeOf(P(s).m.p) \ RangeOf(P(s).popt), lo \in {Df, Dm(<<-1>>)}, hi \in {Dm(<<2>>)} }
  \cup { Pm(s, kd, "set", "set", <<v>>, lo, hi) : kd \in {"th"}, v \in RangeOf(P(s).m.th) \ RangeOf(P(s).thopt), lo \in {Df, Dm(<<-1>>)}, hi \in {Df, Dm(<<2>>)} }
  \cup { RmY(s, vs, <<>>) : vs \in {<<P(s).m.y[i]>> : i \in 1..Len(P(s).m.y)} \cup {<<"nope">>} }
  \cup { RmY(s, <<P(s).m.y[i]>>, <<j>>) : i \in 1..Len(P(s).m.y), j \in 0..Len(P(s).m.alg) }
  \cup { RmY(s, <<P(s).m.y[2], P(s).m.y[1]>>, <<>>) : z \in {z \in {1} : Len(P(s).m.y) > 1} }
  \cup { RmU(s, vs) : vs \in {<<P(s).m.u[i]>> : i \in 1..Len(P(s).m.u)} \cup {<<"nope">>} }
  \cup { RmU(s, <<P(s).m.u[2], P(s).m.u[1]>>) : z \in {z \in {1} : Len(P(s).m.u) > 1} }
  \cup { Cs(s, k, es, "default", f) : k \in {"initial", "final", "h"}, es \in {<<L(ex, 2, 1)>>, <<L(ex, 2, 1), L(ex, 4, 0)>>}, f \in {"vec", "list"} }
  \cup { Cs(s, k, es, wh, f) : k \in {"ineq", "eq"}, es \in {<<L(ex, 2, 1)>>, <<L(ex, 2, 1), L(ex, 4, 0)>>}, wh \in Whens, f \in {"vec", "list"} }
  \cup { Xc(s) : z \in {z \in {1} : P(s).xcost = ""} }
SpoilOps(s) ==
  { Sp(s, f, Append(P(s)[f], 9)) : f \in {"x0", "xmin", "xmax", "ymin", "ymax", "umin", "umax", "dumin", "dumax", "poptmin", "poptmax", "thoptmin", "thoptmax"} }
  \cup UNION { { Sp(s, f, Tail(P(s)[f])) : z \in {z \in {1} : P(s)[f] # <<>>} } : f \in {"x0", "xmin", "xmax", "ymin", "ymax", "umin", "umax", "dumin", "dumax", "poptmin", "poptmax", "thoptmin", "thoptmax"} }
  \cup { Sp(s, "L", <<>>), Sp(s, "V", <<>>) }
  \cup { Rs(s) : z \in {z \in {1} : /\ P(s).xcost = "" /\ RangeOf(P(s).popt) \subseteq RangeOf(w.um[s].p) /\ RangeOf(P(s).thopt) \subseteq RangeOf(w.um[s].th)
                                    /\ Len(P(s).m.x) = Len(w.um[s].x) /\ Len(P(s).m.y) = Len(w.um[s].y) /\ Len(P(s).m.u) = Len(w.um[s].u)} }
TransOps(s) ==
  LET m == P(s).m
      free == RemoveAll(m.u, m.pset)
      one == {<<free[i]>> : i \in 1..Len(free)}
  IN
  { Rp(s, <<v>>, <<L(<<"q">> \o m.x, 2, 1)>>) : v \in RangeOf(m.x \o m.y \o free \o m.p \o m.th \o <<m.t, m.tau>>) }
  \cup { Rp(s, <<m.x[1], m.x[2]>>, <<Sym(m.x[2]), Sym(m.x[1])>>), Rp(s, <<m.x[1], m.x[2]>>, <<Sym("q")>>) }
  \cup { Pa(s, us, <<L(<<"w1">> \o m.x \o <<m.tau>>, 3, 2)>>, up) : us \in {<<m.u[i]>> : i \in 1..Len(m.u)}, up \in {u \in {<<"w1">>} : New(u)} }
  \cup { Pa(s, us, <<L(m.x, 2, 0), L(<<"w1">>, 2, 1)>>, up) : us \in {<<m.u[2], m.u[1]>> : z \in {z \in {1} : Len(m.u) > 1}}, up \in {u \in {<<"w1">>} : New(u)} }
  \cup { Cn(s, us, <<Sym(v)>>, b, f) : us \in one, v \in RangeOf(m.y), b \in BOOLEAN, f \in {"vec", "list"} }
  \cup { Cn(s, us, <<Sym(v)>>, TRUE, "vec") : us \in one, v \in RangeOf(m.x) }
  \cup { Cn(s, <<free[2], free[1]>>, SymSeq(ys), b, f) : z \in {z \in {1} : Len(free) > 1}, ys \in {y \in {<<m.y[1], m.y[2]>>, <<m.y[1]>>} : TRUE}, b \in BOOLEAN, f \in {"vec", "list"} }
  \cup { Cn(s, <<free[1], z>>, SymSeq(ys), b, f) : ys \in IF Len(m.y) > 1 THEN {<<m.y[1], m.y[2]>>} ELSE {}, z \in IF Len(free) > 0 THEN {free[1], m.x[1], "nope"} \cup RangeOf(m.u) ELSE {}, b \in BOOLEAN, f \in {"vec", "list"} }
  \cup { RmU(s, <<m.u[i]>>) : i \in 1..Len(m.u) }
  \cup { Xc(s) : z \in {z \in {1} : P(s).xcost = ""} }
Fresh2(ss) == \A i \in DOMAIN ss : \A j \in DOMAIN ss : i # j => RangeOf(AllVars(P(ss[i]).m)) \cap RangeOf(AllVars(P(ss[j]).m)) = {}
MergeOps ==
  { Mg(x[1], SubSeq(x, 2, Len(x))) : x \in {x \in {<<"a", "b">>, <<"b", "a">>, <<"a", "c">>, <<"c", "a">>, <<"b", "c">>, <<"a", "b", "c">>, <<"a", "c", "b">>, <<"c", "b", "a">>} : Fresh2(x)} }
  \cup UNION { { Cn(s, <<u>>, <<Sym(v)>>, b, "vec") : u \in {u \in RangeOf(P(s).m.u) : TRUE}, v \in RangeOf(P(s).m.y), b \in BOOLEAN } : s \in {"a"} }
  \cup UNION { { Pa(s, <<P(s).m.u[2], P(s).m.u[1]>>, <<L(P(s).m.x, 2, 0), L(<<v>>, 2, 1)>>, <<v>>) : v \in {v \in {"w" \o s} : New(<<v>>) /\ Len(P(s).m.u) > 1} } : s \in {"a", "b"} }
  \cup UNION { { Pa(s, <<P(s).m.u[1]>>, <<L(<<s \o "v">> \o P(s).m.x, 3, 1)>>, <<s \o "v", s \o "w">>) : z \in {z \in {1} : New(<<s \o "v">>) /\ Len(P(s).m.u) > 0} } : s \in {"b", "c"} }
StochOps(s) ==
  LET ex == Sym0(P(s)) IN
  { Un(s, "p", f, vs, mean, var, dst) : f \in {"create", "include"}, vs \in {v \in {<<"nz">>} : New(v)}, mean \in {<<3>>, <<3, 4>>}, var \in {<<2>>}, dst \in {"normal", "uniform"} }
  \cup { Un(s, "p", "include", vs, <<3, 4>>, var, "normal") : vs \in {v \in {<<"nw", "nv">>} : New(v)}, var \in {<<2, 5>>, <<2>>} }
  \cup { Un(s, "p", "set", <<v>>, <<3>>, <<7>>, "normal") : v \in RangeOf(P(s).m.p) \ RangeOf(P(s).punc) }
  \cup { Un(s, "init", "set", <<v>>, <<3>>, <<7>>, "normal") : v \in RangeOf(P(s).m.x0) \ RangeOf(P(s).iunc) }
  \cup { Ch(s, es, rhs, pr, f) : es \in {<<L(ex, 2, 1)>>}, rhs \in {Df, Li(<<4>>), Dm(<<4, 5>>)}, pr \in {<<95>>, <<95, 90>>}, f \in {"vec", "list"} }
  \cup { Ch(s, es, rhs, pr, "list") : es \in {<<L(ex, 2, 1), L(ex, 4, 1)>>}, rhs \in {Df, Dm(<<4, 5>>), Li(<<4>>)}, pr \in {<<95, 90>>, <<95>>} }
  \cup { Pm(s, "p", "plain", "create", vs, Df, Df) : vs \in {v \in {<<"pz">>} : New(v)} }
Ops == CASE Focus = "book" -> (BookOps("a") \cup SpoilOps("a")) [] Focus = "trans" -> TransOps("a") [] Focus = "merge" -> MergeOps [] Focus = "stoch" -> StochOps("a")
Okay(op) == IF op.op = "state" THEN ~(op.x0 # <<>> /\ op.hin # <<>>) ELSE TRUE
Entry(op, res) == [op |-> op, out |-> res.out]
RECURSIVE RunOps(_, _, _)
RunOps(ww, ops, lg) == IF ops = <<>> THEN [w |-> ww, log |-> lg]
  ELSE LET res == ApplyP(ww, Head(ops)) IN RunOps(res.w, Tail(ops), Append(lg, Entry(Head(ops), res)))
Init == \E pre \in Preludes : LET s == RunOps(WorldInit(Slots), pre, <<>>) IN w = s.w /\ log = s.log
Do(op) == LET res == ApplyP(w, op) IN
          /\ Assert(OcpStep(w, op, res), <<"OcpStep", op>>)
          /\ w' = res.w /\ log' = Append(log, Entry(op, res))
Next == TLCGet("level") <= D /\ (\A s \in DOMAIN w.ps : ~w.ps[s].spoiled) /\ \E op \in Ops : Okay(op) /\ Do(op)
Spec == Init /\ [][Next]_vars
View == w
Emit == PrintT(ToJson([h |-> log', post |-> ProjW(w')]))
Inv == OcpInv(w)
=============================================================================
