----------------------------- MODULE MC_Network -----------------------------
EXTENDS Network, Json
CONSTANTS Focus, D, Len_
Every(S) == S
One(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
Pick(S) == S
(* random walks: mostly A; exhaustively: B, which contains A *)
MostlyA(A, B) == IF RandomElement(1..6) = 1 THEN B ELSE A
AlwaysB(A, B) == B
Often(A, B) == B
VARIABLES w, log
vars == <<w, log>>
L(vs, a, k) == Rich(vs, a, k)
Cr(s, kind, name, n) == [op |-> "user", mop |-> [op |-> "create", m |-> s, kind |-> kind, name |-> name, n |-> n]]
Eq(s, xs, ode, alg) == [op |-> "user", mop |-> [op |-> "equations", m |-> s, form |-> "kw", xs |-> xs, ode |-> ode, alg |-> alg]]
Mk(s, x0, t0, tf) == [op |-> "make", s |-> s, x0 |-> x0, t0 |-> t0, tf |-> tf]
Bd(s, b) == [op |-> "bounds", s |-> s, base |-> b]
Gs(s, k, v) == [op |-> "guess", s |-> s, k |-> k, v |-> v]
Co(s, k, e) == [op |-> "cost", s |-> s, k |-> k, e |-> e]
M(a, v) == Scale(a, Sym(v))
Sum(es) == SumE(es)
(* four subsystems; their dynamics are stable and of index one, however they are connected in a chain *)
Ic == Focus = "ic"
Opt(op) == IF Ic THEN <<>> ELSE <<op>>
Z(e) == IF Ic THEN Zero ELSE e
Pre == <<
  Cr("a", "x", "ax", 2), Cr("a", "y", "ay", 1), Cr("a", "u", "au", 2)>> \o Opt(Cr("a", "p", "ap", 1)) \o <<
  Eq("a", <<"ax_0", "ax_1">>, <<Sum(<<M(-2, "ax_0"), M(1, "au_0"), M(1, "t:a")>>), Sum(<<M(-1, "ax_1"), M(1, "ay"), Z(M(1, "tau:a")), Z(M(1, "ap"))>>)>>,
     <<Sum(<<M(1, "ay"), M(-3, "ax_0"), M(1, "au_1")>>)>>),
  Mk("a", <<1, 2>>, 1, 3), Bd("a", 40), Gs("a", "ug", <<5, 6>>), Gs("a", "yg", <<7>>), Co("a", "L", L(<<"ax_0", "au_0", "t:a">>, 2, 0)), Co("a", "V", M(3, "ax_1")),
  Cr("b", "x", "bx", 1), Cr("b", "y", "by", 2), Cr("b", "u", "bu", 1)>> \o Opt(Cr("b", "th", "bh", 1)) \o <<
  Eq("b", <<"bx">>, <<Sum(<<M(-3, "bx"), M(2, "bu"), M(1, "by_0"), Z(M(1, "bh"))>>)>>,
     <<Sum(<<M(1, "by_0"), M(-1, "bx"), M(1, "t:b")>>), Sum(<<M(2, "by_1"), M(1, "by_0"), M(-1, "bu")>>)>>),
  Mk("b", <<3>>, 1, 3), Bd("b", 140), Gs("b", "ug", <<8>>), Gs("b", "yg", <<9, 10>>), Co("b", "L", L(<<"bx", "by_1">>, 4, 1)),
  Cr("c", "x", "cx", 1), Cr("c", "u", "cu", 1), Eq("c", <<"cx">>, <<Sum(<<M(-1, "cx"), M(1, "cu"), M(2, "t:c")>>)>>, <<>>),
  Mk("c", <<4>>, 1, 3), Gs("c", "ug", <<11>>), Co("c", "V", M(5, "cx")),
  Cr("d", "x", "dx", 1), Cr("d", "u", "du", 1), Eq("d", <<"dx">>, <<Sum(<<M(-1, "dx"), M(1, "du")>>)>>, <<>>),
  Mk("d", <<4>>, 0, 3),
  Cr("e", "x", "ex", 1), Cr("e", "u", "eu", 2), Eq("e", <<"ex">>, <<Sum(<<M(-1, "ex"), M(1, "eu_0"), M(2, "eu_1")>>)>>, <<>>) >>
Slots == {"a", "b", "c", "d", "e"}
RECURSIVE RunPre(_, _)
RunPre(o, ops) == IF ops = <<>> THEN o ELSE RunPre(ApplyP(o, Head(ops)).w, Tail(ops))
O0 == RunPre(WorldInit(Slots), Pre)

New(k, s, id, name, prob, how) == [op |-> "newnode", k |-> k, s |-> s, id |-> id, name |-> name, prob |-> prob, how |-> how]
Inc(ks, form) == [op |-> "include", ks |-> ks, form |-> form]
Cn(a, b, ys, us) == [op |-> "connect", a |-> a, b |-> b, ys |-> ys, us |-> us]
Dis(a, b) == [op |-> "disconnect", a |-> a, b |-> b]
Ins == [op |-> "insert"]
NodeKeys == {"na", "nb", "nc", "nd", "ne"}
SlotOf(k) == CASE k = "na" -> "a" [] k = "nb" -> "b" [] k = "nc" -> "c" [] k = "nd" -> "d" [] k = "ne" -> "e"
(* initial networks: nodes made (some already included), a few connections *)
Starts ==
  LET mk(ids, names, probs) == <<New("na", "a", ids[1], names[1], TRUE, "prob"), New("nb", "b", ids[2], names[2], TRUE, probs),
                          New("nc", "c", ids[3], names[3], TRUE, "both"), New("nd", "d", NoId, "", TRUE, "prob"), New("ne", "e", NoId, "E", FALSE, "model")>>
      free == mk(<<NoId, NoId, NoId>>, <<"A", "", "C">>, "prob")
      set == mk(<<NoId, 1, 0>>, <<"", "B", "">>, "both")
  IN IF Focus = "inter" THEN { free, free \o <<Inc(<<"na", "nb", "nc">>, "list")>>, set \o <<Inc(<<"nb">>, "one"), Inc(<<"na", "nc">>, "list")>> }
     ELSE { free, set \o <<Inc(<<"nb">>, "one"), Inc(<<"na", "nc">>, "list")>>, free \o <<Inc(<<"na">>, "init"), Inc(<<"nb", "nc">>, "list")>>, set \o <<Inc(<<"na", "nb", "nc">>, "init")>>,
            free \o <<Inc(<<"na", "nb", "nc">>, "list"), Cn("na", "nb", <<"ay">>, <<"bu">>), Cn("nb", "nc", <<"by_1">>, <<"cu">>)>>,
            free \o <<Inc(<<"na", "nb", "nc", "nd">>, "list"), Cn("nb", "na", <<"by_0", "bx">>, <<"au_1", "au_0">>)>> }
Outs(k) == CASE k = "na" -> {<<"ay">>, <<"ax_1">>, <<"ax_0", "ay">>, <<"ay", "ax_1">>} [] k = "nb" -> {<<"by_1">>, <<"by_1", "bx">>, <<"bx", "by_0">>}
             [] k = "nc" -> {<<"cx">>} [] k = "nd" -> {<<"dx">>} [] k = "ne" -> {<<"ex">>}
Ins_(k) == CASE k = "na" -> {<<"au_0">>, <<"au_1">>, <<"au_1", "au_0">>} [] k = "nb" -> {<<"bu">>} [] k = "nc" -> {<<"cu">>} [] k = "nd" -> {<<"du">>}
             [] k = "ne" -> {<<"eu_0">>, <<"eu_0", "eu_1">>}
Pairs_ == {ab \in NodeKeys \X NodeKeys : ab[1] # ab[2]}
Connects == UNION { {Cn(ab[1], ab[2], y, u) : y \in Outs(ab[1]), u \in Ins_(ab[2])} : ab \in Pairs_ }
Fair == {c \in Connects : Len(c.ys) = Len(c.us)}
BadConnects == {c \in Connects : Len(c.ys) # Len(c.us)}
  \cup {Cn("na", "nb", <<"by_1">>, <<"bu">>), Cn("na", "nb", <<"ay">>, <<"cu">>), Cn("nb", "na", <<"bx", "ay">>, <<"au_0", "au_1">>),
        Cn("nb", "na", <<"bx", "by_0">>, <<"au_0", "bu">>), Cn("nc", "nb", <<"bx">>, <<"bu">>)}
(* with intermediary nodes both ends need a problem *)
Usable(ww, c) == ~ww.inter \/ ("ne" \notin {c.a, c.b} /\ ~InSeq("ne", ww.in))
(* the histories that can be composed: the subsystems that fit together, every input fed once *)
Good(ww) == {c \in Fair : {c.a, c.b} \cap {"nd", "ne"} = {} /\ RangeOf(c.us) \cap RangeOf(FedBy(ww.edges)) = {}}
Main == {"na", "nb", "nc"}
Stimuli(ww) ==
  {c \in Pick(Often(Good(ww), Connects)) : Usable(ww, c)}
  \cup {c \in Pick(Often(Good(ww), Fair)) : Usable(ww, c)}
  \cup {c \in Pick(BadConnects) : Usable(ww, c)}
  \cup {Inc(<<k>>, f) : k \in Pick(Often(Main, NodeKeys)), f \in Pick({"one", "list"})}
  \cup {Inc(<<k, j>>, "list") : k \in Pick(Main), j \in Pick(Often(Main, NodeKeys))}
  \cup {Dis(ab[1], ab[2]) : ab \in Pick(Pairs_)}
  \cup {Dis(e.a, e.b) : e \in Pick(RangeOf(ww.edges))}
  \cup (IF ww.inter \/ InSeq("ne", ww.in) \/ ww.made > 4 THEN {} ELSE {Ins})
RECURSIVE RunOps(_, _, _)
Entry(op, res) == [op |-> op, out |-> res.out]
RunOps(ww, ops, lg) == IF ops = <<>> THEN [w |-> ww, log |-> lg]
  ELSE LET res == ApplyN(ww, Head(ops)) IN RunOps(res.w, Tail(ops), Append(lg, Entry(Head(ops), res)))
Init == \E pre \in Starts : LET s == RunOps(NetInit(O0, Focus = "inter"), pre, <<>>) IN w = s.w /\ log = s.log
Do(op) == LET res == ApplyN(w, op) IN
          /\ Assert(NetStep(w, op, res), <<"NetStep", op>>)
          /\ w' = res.w /\ log' = Append(log, Entry(op, res))
Next == TLCGet("level") <= D /\ \E op \in Pick(Stimuli(w)) : Do(op)
Spec == Init /\ [][Next]_vars
View == w
Emit == PrintT(ToJson([h |-> log', post |-> ProjN(w')]))
EmitEnd == (Len_ > 0 /\ TLCGet("level") = Len_) => PrintT(ToJson([h |-> log, post |-> ProjN(w)]))
EmitPre == log = log /\ PrintT(ToJson(Pre))
Inv == NetInv(w)
=============================================================================
