---------------------------- MODULE MC_Modelling ----------------------------
(* Exhaustive exploration of Modelling from several preludes, emitting each *)
(* transition (with the shortest history that reaches it) as a replayable   *)
(* behaviour for the conformance driver.                                    *)
EXTENDS Modelling, Json
CONSTANTS Focus, D
VARIABLES w, log
vars == <<w, log>>

Free(r) == r.x \o r.y \o r.upar \o r.p \o r.th
RichM(r, a) == Rich(Free(r) \o <<r.t>>, a, a + 20)
RichT(r, a) == Rich(Free(r) \o <<r.t, r.tau>>, a, a + 20)
Mk(m, kind, vars_, eq) == [op |-> "include", m |-> m, kind |-> kind, vars |-> vars_, eq |-> eq]
Cr(m, kind, name, n) == [op |-> "create", m |-> m, kind |-> kind, name |-> name, n |-> n]
Rm(m, kind, vars_) == [op |-> "remove", m |-> m, kind |-> kind, vars |-> vars_, eqi |-> <<>>]
RmEq(m, vars_, eqi) == [op |-> "remove", m |-> m, kind |-> "y", vars |-> vars_, eqi |-> eqi]
Eq(m, form, xs, ode, alg) == [op |-> "equations", m |-> m, form |-> form, xs |-> xs, ode |-> ode, alg |-> alg]
Rp(m, vs, es) == [op |-> "replace", m |-> m, vars |-> vs, exprs |-> es]
Pa(m, us, es, up) == [op |-> "parametrize", m |-> m, us |-> us, exprs |-> es, upar |-> up]
Cn(m, us, ys, rep) == [op |-> "connect", m |-> m, us |-> us, ys |-> ys, replace |-> rep]
Mg(m, from, alg, form) == [op |-> "merge", m |-> m, from |-> from, alg |-> alg, form |-> form]
Cp(m, to) == [op |-> "copy", m |-> m, to |-> to]
Dc(m, to) == [op |-> "deepcopy", m |-> m, to |-> to]

Used(ww) == DOMAIN ww.nm
Take(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, 1, n)
L(vs, a, k) == Rich(vs, a, k)

(* a two-state DAE model with vectors of every kind *)
PreFull(m) == <<
  Cr(m, "x", m \o "a", 2), Cr(m, "y", m \o "b", 2), Cr(m, "u", m \o "c", 2), Cr(m, "p", m \o "d", 1), Cr(m, "th", m \o "e", 1),
  Eq(m, "kw", <<m \o "a_0", m \o "a_1">>,
     <<L(<<m \o "a_0", m \o "b_0", m \o "c_0", m \o "d", m \o "e", "t:" \o m>>, 2, 1),
       L(<<m \o "a_1", m \o "b_1", m \o "c_1", "tau:" \o m>>, 3, 0)>>,
     <<L(<<m \o "b_0", m \o "a_0", m \o "c_0">>, 5, 0), L(<<m \o "b_1", m \o "a_1", m \o "c_1", "t:" \o m>>, 4, 2)>>) >>
PreOde(m) == << Cr(m, "x", m \o "a", 1), Cr(m, "u", m \o "c", 1),
   Eq(m, "der", <<m \o "a">>, <<L(<<m \o "a", m \o "c">>, 2, 0)>>, <<>>) >>

Preludes ==
  CASE Focus = "vars" -> { <<>>, PreFull("m"), <<Cr("m", "x", "ma", 2), Cr("m", "y", "mb", 1), Cr("m", "u", "mc", 3)>> }
    [] Focus = "subst" -> { PreFull("m"),
          PreFull("m") \o <<Pa("m", <<"mc_0">>, <<L(<<"k", "ma_0">>, 2, 1)>>, <<"k">>)>>,
          PreOde("m") \o <<Cr("m", "y", "mb", 1)>> }
    [] Focus = "compose" -> { PreFull("m") \o PreOde("n"), PreFull("m") \o PreOde("n") \o PreOde("o"),
          PreFull("m") \o <<Pa("m", <<"mc_0">>, <<L(<<"k", "ma_0">>, 2, 1)>>, <<"k">>)>> \o PreOde("n"),
          PreOde("m") \o PreFull("n") \o <<Pa("n", <<"nc_1", "nc_0">>, <<L(<<"k", "na_0">>, 2, 1), L(<<"k", "l">>, 3, 0)>>, <<"k", "l">>)>> }
    [] Focus = "copy" -> { PreFull("m"), PreOde("m"), <<Cr("m", "x", "ma", 2), Cr("m", "u", "mc", 1)>>,
          <<Cr("m", "x", "ma", 3), Eq("m", "kw", <<"ma_1">>, <<L(<<"ma_0", "ma_2", "t:m">>, 2, 0)>>, <<>>)>>,
          PreFull("m") \o <<Pa("m", <<"mc_1">>, <<L(<<"k", "ma_0", "mc_0">>, 2, 1)>>, <<"k">>)>>,
          PreOde("m") \o PreOde("n") \o <<Pa("n", <<"nc">>, <<L(<<"k", "na">>, 2, 1)>>, <<"k">>)>>,
          PreFull("m") \o PreOde("n") }

Slots == IF Focus = "compose" THEN {"m", "n", "o"} ELSE IF Focus = "copy" THEN {"m", "n"} ELSE {"m"}
Prefixes == IF Focus \in {"vars", "copy"} THEN {"m"} ELSE {}

Kinds == {"x", "y", "u", "p", "th"}
Vec(r, kind) == CASE kind = "x" -> r.x [] kind = "y" -> r.y [] kind = "u" -> r.u [] kind = "p" -> r.p [] kind = "th" -> r.th
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Singles(s) == {<<s[i]>> : i \in 1..Len(s)}
Pairs(s) == {<<s[i], s[j]>> : i \in 1..Len(s), j \in 1..Len(s)} \ {<<v, v>> : v \in RangeOf(s)}

EqOps(ww, m) ==
  LET r == ww.ms[m] IN
  { Eq(m, f, vs, <<RichM(r, 2)>>, <<>>) : f \in {"kw", "kwlist", "der"}, vs \in Singles(r.x) }
  \cup { Eq(m, f, vs, <<RichM(r, 2), RichT(r, 4)>>, <<>>) : f \in {"kw", "der"}, vs \in Pairs(r.x) }
  \cup { Eq(m, "kw", vs, <<RichM(r, 2)>>, <<>>) : vs \in Pairs(r.x) }
  \cup { Eq(m, "guess", <<>>, [i \in 1..n |-> RichM(r, 2 * i)], <<>>) : n \in {1, Len(r.x)} \ {0} }
  \cup { Eq(m, f, <<>>, <<>>, <<RichM(r, 2), RichT(r, 5)>>) : f \in {"kw", "kwlist", "eq"} }
  \cup { Eq(m, "kw", vs, <<RichM(r, 2)>>, <<RichM(r, 3)>>) : vs \in Singles(r.x) }
  \cup { Eq(m, "mixed", vs, <<RichM(r, 2)>>, <<RichM(r, 3)>>) : vs \in Singles(r.x) }
  \cup { Eq(m, f, <<>>, <<>>, <<RichM(r, 2), RichT(r, 5), RichM(r, 7)>>) : f \in {"kweq"} }
  \cup { Eq(m, f, vs, <<RichM(r, 2)>>, <<RichM(r, 3), RichT(r, 6)>>) : vs \in Singles(Take(r.x, 2)), f \in {"kweq", "derkw", "mixkw"} }

VarOps(ww, m) ==
  LET r == ww.ms[m] IN
  { Cr(m, k, k \o "z", n) : k \in {k \in Kinds : (k \o "z") \notin Used(ww) /\ (k \o "z_0") \notin Used(ww)}, n \in {1, 2} }
  \cup { Cr(m, "x", "xq", 4) : k \in {k \in {1} : "xq_0" \notin Used(ww)} }
  \cup { Mk(m, k, vs, <<>>) : k \in Kinds, vs \in {v \in {<<"ia">>, <<"ib", "ia">>} : RangeOf(v) \cap Used(ww) = {}} }
  \cup { Mk(m, "x", <<"ic", "id">>, <<RichM(r, 2), Add(RichM(r, 3), Sym("ic"))>>) : k \in {k \in {1} : "ic" \notin Used(ww)} }
  \cup { Mk(m, "y", <<"ic">>, <<Add(RichM(r, 3), Sym("ic"))>>) : k \in {k \in {1} : "ic" \notin Used(ww)} }
  \cup { Mk(m, "x", <<"ie", "if">>, <<RichM(r, 2)>>) : k \in {k \in {1} : "ie" \notin Used(ww)} }
  \cup { Mk(m, "x", vs, <<>>) : vs \in {<<"ie">> \o v : v \in {v \in Singles(r.x) : "ie" \notin Used(ww)}} \cup Singles(r.x) }
  \cup { Rm(m, k, vs) : k \in Kinds, vs \in {<<"ia">>} }
  \cup UNION { { Rm(m, k, v \o <<"no">>) : v \in Singles(Vec(r, k)) } : k \in Kinds }
  \cup UNION { { Rm(m, k, vs) : vs \in Singles(Vec(r, k)) \cup Pairs(Vec(r, k)) } : k \in Kinds }
  \cup UNION { { RmEq(m, vs, <<i>>) : vs \in Singles(r.y) } : i \in 0..Len(r.alg) }
  \cup EqOps(ww, m)
FreeU(r) == RemoveAll(r.u, r.pset)
SubstOps(ww, m) ==
  LET r == ww.ms[m] IN
  { Rp(m, vs, <<L(<<"q">> \o r.x, 2, 1)>>) : vs \in Singles(r.x \o r.y \o FreeU(r) \o r.p \o r.th \o <<r.t>>) }
  \cup { Rp(m, vs, Rev(SymSeq(vs))) : vs \in Pairs(Take(r.x, 2)) \cup Pairs(FreeU(r)) }
  \cup { Rp(m, vs, <<Const(3), Const(0)>>) : vs \in Pairs(r.y) }
  \cup { Rp(m, vs, <<Sym("q")>>) : vs \in Pairs(r.y) }
  \cup { Pa(m, vs, <<L(<<"w1">> \o Take(r.x, 1) \o r.y, 3, 2)>>, up) : vs \in Singles(r.u), up \in {u \in {<<"w1">>} : "w1" \notin Used(ww)} }
  \cup { Pa(m, vs, <<L(<<"w1", "w2">>, 3, 0), L(r.x, 2, 0)>>, up) : vs \in Pairs(r.u), up \in {u \in {<<"w2", "w1">>} : "w1" \notin Used(ww)} }
  \cup { Pa(m, vs, <<L(r.x, 2, 5)>>, <<>>) : vs \in Singles(r.u) }
  \cup { Pa(m, vs, <<L(<<r.tau, r.t>>, 2, 5)>>, <<>>) : vs \in Pairs(r.u) \cup Singles(FreeU(r)) }
  \cup { Cn(m, us, <<Sym(v)>>, b) : us \in Singles(FreeU(r)), v \in RangeOf(r.y), b \in BOOLEAN }
  \cup { Cn(m, us, SymSeq(ys), b) : us \in Pairs(FreeU(r)), ys \in Pairs(Take(r.y, 2)), b \in BOOLEAN }
  \cup { Cn(m, us, SymSeq(ys), b) : us \in Singles(FreeU(r)), ys \in Pairs(Take(r.y, 2)), b \in BOOLEAN }
  \cup { Cn(m, v \o z, SymSeq(ys), b) : v \in Singles(FreeU(r)), z \in Singles(Take(FreeU(r), 1)) \cup {<<"no">>} \cup Singles(r.upar) \cup Singles(Take(r.x, 1)),
             ys \in Pairs(Take(r.y, 2)), b \in BOOLEAN }
  \cup { Cn(m, v, SymSeq(Take(r.y, 1)), b) : v \in Singles(r.u) \cup Singles(r.upar) \cup Singles(Take(r.x, 1)) \cup Singles(Take(r.y, 1)), b \in BOOLEAN }
  \cup { Rm(m, "u", vs) : vs \in Pairs(r.u \o RemoveAll(r.upar, RangeOf(r.u))) }
  \cup { Rm(m, "u", vs) : vs \in Singles(r.u) \cup Pairs(r.u) }
  \cup { Pa(m, v \o <<"no">>, <<L(r.x, 2, 5), L(r.x, 3, 5)>>, <<>>) : v \in Singles(r.u) }
  \cup { Eq(m, "kw", vs, <<RichT(r, 2)>>, <<RichM(r, 3)>>) : vs \in Singles(Take(r.x, 1)) }

Disjoint(ww, m, n) == RangeOf(AllVars(ww.ms[m])) \cap RangeOf(AllVars(ww.ms[n])) = {}
ComposeOps(ww) ==
  { Mg(m, <<n>>, <<>>, f) : m \in DOMAIN ww.ms, n \in DOMAIN ww.ms, f \in {"include", "list", "merge"} }
  \cup { Mg(m, <<n>>, <<Sub(RichM(ww.ms[n], 2), RichM(ww.ms[m], 3))>>, "merge") : m \in DOMAIN ww.ms, n \in DOMAIN ww.ms }
  \cup { Mg("m", <<"n", "o">>, <<>>, "list"), Mg("o", <<"m", "n">>, <<>>, "merge") }
ComposeOk(ww, op) == \A i \in 1..Len(op.from) : op.from[i] # op.m /\ Disjoint(ww, op.m, op.from[i])
                     /\ \A j \in 1..Len(op.from) : i # j => Disjoint(ww, op.from[i], op.from[j])
ConnectOps(ww, m) ==
  LET r == ww.ms[m] IN
  { Cn(m, us, <<Sym(v)>>, b) : us \in Singles(FreeU(r)), v \in RangeOf(r.y) \cup RangeOf(r.x), b \in BOOLEAN }

CopyOps(ww) ==
  { Cp(m, to) : m \in {"m"}, to \in {t \in {"c"} : t \notin DOMAIN ww.ms} }
  \cup { Dc(m, to) : m \in DOMAIN ww.ms, to \in {t \in {"c", "d"} : t \notin DOMAIN ww.ms} }
EditOps(ww, m) ==
  LET r == ww.ms[m] IN
  { Mk(m, k, vs, <<>>) : k \in Kinds, vs \in {v \in {<<"ia">>} : RangeOf(v) \cap Used(ww) = {}} }
  \cup UNION { { Rm(m, k, vs) : vs \in Singles(Take(Vec(r, k), 1)) } : k \in Kinds }
  \cup { Rp(m, vs, <<L(<<"q">> \o r.x, 2, 1)>>) : vs \in Singles(Take(r.x, 1) \o Take(r.y, 1)) }
  \cup { Pa(m, vs, <<L(<<"w1">> \o Take(r.x, 1), 3, 2)>>, up) : vs \in Singles(FreeU(r)), up \in {u \in {<<"w1">>} : "w1" \notin Used(ww)} }
  \cup { Eq(m, "kw", vs, <<RichT(r, 2)>>, <<RichM(r, 3)>>) : vs \in Singles(Take(r.x, 1)) }
  \cup { Eq(m, "guess", <<>>, <<RichM(r, 2)>>, <<>>) : n \in {1} \ {Len(r.x) + 1} }
  \cup { Cn(m, us, <<Sym(v)>>, b) : us \in Singles(Take(FreeU(r), 1)), v \in RangeOf(r.y), b \in BOOLEAN }

Stimuli(ww) ==
  CASE Focus = "vars" -> VarOps(ww, "m")
    [] Focus = "subst" -> SubstOps(ww, "m")
    [] Focus = "compose" -> {op \in ComposeOps(ww) : ComposeOk(ww, op)} \cup UNION {ConnectOps(ww, m) : m \in {"m", "n"}}
                           \cup { Cp("n", to) : to \in {t \in {"c"} : t \notin DOMAIN ww.ms} } \cup { Dc("m", to) : to \in {t \in {"d"} : t \notin DOMAIN ww.ms} }
                           \cup UNION { { Pa(m, vs, <<L(ww.ms[m].x, 2, 5)>>, <<>>) : vs \in Singles(Take(FreeU(ww.ms[m]), 1)) } : m \in DOMAIN ww.ms }
    [] Focus = "copy" -> CopyOps(ww) \cup UNION {EditOps(ww, m) : m \in DOMAIN ww.ms \ {"n"}}
                           \cup { op \in { Mg(m, <<"n">>, <<>>, "include") : m \in DOMAIN ww.ms \ {"n"} } : ww.ms["n"].x # <<>> /\ ComposeOk(ww, op) }

Entry(op, res) == [op |-> op, out |-> res.out]
RECURSIVE RunOps(_, _, _)
RunOps(ww, ops, lg) == IF ops = <<>> THEN [w |-> ww, log |-> lg]
  ELSE LET res == Apply(ww, Head(ops)) IN RunOps(res.w, Tail(ops), Append(lg, Entry(Head(ops), res)))

Init == \E pre \in Preludes : LET s == RunOps(Init0(Slots, Prefixes), pre, <<>>) IN w = s.w /\ log = s.log
Do(op) == LET res == Apply(w, op) IN
          /\ Assert(StepInv(w, op, res), <<"StepInv", op>>)
          /\ w' = res.w /\ log' = Append(log, Entry(op, res))
Next == TLCGet("level") <= D /\ \E op \in Stimuli(w) : Do(op)
Spec == Init /\ [][Next]_vars
View == w
Emit == PrintT(ToJson([h |-> log', post |-> Proj(w')]))
Inv == ModelInv(w)
=============================================================================
