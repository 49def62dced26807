-------------------------- MODULE MC_Transcription --------------------------
EXTENDS Transcription, Json
CONSTANTS Focus, Schemes, Ns
NoB == <<-INF, INF>>
Base == [name |-> "plain", sch |-> "coll", n |-> 2, deg |-> 2, dc |-> 1, t0 |-> 0, dt |-> 3, x0 |-> <<1, 2>>,
  ode1 |-> [E0 EXCEPT !.u1 = 6, !.h1 = 6, !.p1 = 6], ode2 |-> [E0 EXCEPT !.x1 = 1, !.u2 = 6],
  alg |-> E0, hasy |-> FALSE, L |-> [E0 EXCEPT !.x1 = 6, !.u2 = 12, !.h2 = 6, !.p2 = 6], luu |-> 6,
  V |-> [E0 EXCEPT !.x2 = 1, !.x1 = -2, !.p2 = 3, !.c = 5], S |-> [E0 EXCEPT !.x1 = 1, !.h2 = 4, !.u1 = 2, !.p1 = 1, !.t = 1],
  g |-> <<>>, hf |-> <<>>, h |-> <<>>, xb |-> <<NoB, NoB>>, yb |-> NoB, ub |-> <<NoB, NoB>>, dub |-> <<NoB, NoB>>,
  last |-> <<INF, INF>>, popt |-> <<>>, hopt |-> <<>>, pb |-> <<NoB, NoB>>, hb |-> <<NoB, NoB>>, rev |-> FALSE, icp |-> TRUE,
  dx0 |-> <<50, 60>>, dlast |-> <<40, 41>>, np1 |-> TRUE, sum |-> FALSE, hi |-> <<>>, pin |-> <<TRUE, TRUE>>]
Dae == [Base EXCEPT !.name = "dae", !.hasy = TRUE, !.alg = [E0 EXCEPT !.x1 = 1, !.u2 = 6, !.p2 = 1, !.h2 = 1, !.c = 2],
  !.ode2 = [E0 EXCEPT !.y = 1], !.L = [E0 EXCEPT !.y = 6, !.u1 = 6], !.S = [E0 EXCEPT !.y = 2, !.x2 = 1]]
Time == [Base EXCEPT !.name = "time", !.deg = 3, !.ode1 = [E0 EXCEPT !.t = 6, !.u1 = 6, !.h2 = 6], !.L = [E0 EXCEPT !.t = 6, !.x1 = 6],
  !.S = [E0 EXCEPT !.t = 5, !.u2 = 1]]
Pol == [Base EXCEPT !.name = "pol", !.deg = 3, !.dc = 2, !.ode1 = [E0 EXCEPT !.u1 = 6, !.h1 = 6], !.L = [E0 EXCEPT !.u2 = 6, !.h1 = 6], !.luu = 6]
PolDae == [Pol EXCEPT !.name = "poldae", !.hasy = TRUE, !.alg = [E0 EXCEPT !.x1 = 1, !.u2 = 6], !.ode2 = [E0 EXCEPT !.y = 1], !.S = [E0 EXCEPT !.y = 1, !.u1 = 3]]
Bnd == [Base EXCEPT !.name = "bnd", !.deg = 2, !.xb = <<<<-30, 25>>, <<-40, 80>>>>, !.ub = <<<<-1, 1>>, <<-1, 2>>>>]
BndY == [Dae EXCEPT !.name = "bndy", !.yb = <<-10, 20>>]
BndU2 == [Pol EXCEPT !.name = "bndu2", !.ub = <<<<-2, 4>>, <<-1, 3>>>>]
Du == [Base EXCEPT !.name = "du", !.dub = <<<<-1, 1>>, NoB>>, !.last = <<0, 0>>]
Du2 == [Base EXCEPT !.name = "du2", !.dub = <<<<-2, 1>>, <<-1, 1>>>>, !.last = <<1, -1>>]
DuN == [Base EXCEPT !.name = "dun", !.dub = <<<<-1, 1>>, <<-INF, 1>>>>]
Gs(ws) == [Dae EXCEPT !.name = "g", !.g = [i \in DOMAIN ws |-> [k |-> "ineq", w |-> ws[i],
   e |-> IF i % 2 = 1 THEN [E0 EXCEPT !.x1 = 1, !.u1 = 2, !.h1 = 1, !.c = -12] ELSE [E0 EXCEPT !.y = -1, !.t = -2, !.p1 = 1, !.c = 1]]]]
Geq(w) == [Base EXCEPT !.name = "geq", !.g = <<[k |-> "eq", w |-> w, e |-> [E0 EXCEPT !.u1 = 1, !.u2 = 1, !.h1 = 1, !.c = -1]],
   [k |-> "ineq", w |-> "default", e |-> [E0 EXCEPT !.t = 1, !.x1 = 1, !.c = -25]]>>]
DuOne(b) == [Base EXCEPT !.name = "duone", !.dub = b, !.last = <<0, 0>>]
(* controls that vary inside the element, constraints that hold in parts of it *)
PolG == [Base EXCEPT !.name = "polg", !.dc = 2, !.ode1 = [E0 EXCEPT !.u1 = 6, !.h1 = 6], !.ode2 = [E0 EXCEPT !.u2 = 6], !.L = [E0 EXCEPT !.u2 = 6], !.luu = 0]
GeqV(w, k, t) == [PolG EXCEPT !.name = "geqv", !.t0 = t, !.g = <<[k |-> k, w |-> w, e |-> [E0 EXCEPT !.u1 = 1, !.u2 = 1, !.t = IF t = 0 THEN 1 ELSE 0, !.c = IF t = 0 THEN 0 ELSE IF w = "start" THEN 0 ELSE 3]]>>]
Fin == [Base EXCEPT !.name = "fin", !.hf = <<[E0 EXCEPT !.x1 = 1, !.p1 = -36, !.c = -1]>>, !.h = <<[E0 EXCEPT !.p2 = 1, !.p1 = -1, !.c = 1]>>]
Fin2 == [Dae EXCEPT !.name = "fin2", !.popt = <<2>>, !.pb = <<NoB, <<-1, 1>>>>, !.h = <<[E0 EXCEPT !.p2 = 2, !.p1 = -2, !.c = 2]>>]
Opt(r) == [Dae EXCEPT !.name = "opt", !.popt = <<2>>, !.hopt = <<2>>, !.pb = <<NoB, <<-2, 1>>>>, !.hb = <<NoB, IF r THEN <<0, 2>> ELSE <<-1, 2>>>>, !.rev = r,
   !.S = [E0 EXCEPT !.y = 2, !.x2 = 1, !.h2 = 3, !.p2 = 1]]
Opt2(o) == [Opt(FALSE) EXCEPT !.name = "opt2", !.popt = o, !.hopt = IF o[1] = 1 THEN <<2, 1>> ELSE <<1, 2>>, !.pb = <<<<-1, 2>>, <<0, 1>>>>, !.hb = IF o[1] = 1 THEN <<<<0, 3>>, <<-1, 0>>>> ELSE <<<<0, 1>>, <<-1, 1>>>>]
Late(r) == [r EXCEPT !.t0 = 2]
(* equalities at the initial time: on top of the initial condition, or in the place of a part of it *)
Ini(c) == [Base EXCEPT !.name = "ini", !.hi = <<[E0 EXCEPT !.x1 = 2, !.x2 = -1, !.c = c]>>]
Loose(a, b, d) == [Base EXCEPT !.name = "loose", !.pin = <<a, b>>, !.hi = IF d = 0 THEN <<>> ELSE <<[E0 EXCEPT !.x1 = 2, !.x2 = -1, !.c = d]>>]
Starts == {Ini(0), Ini(1), Loose(TRUE, FALSE, 0), Loose(FALSE, TRUE, 0), Late(Loose(TRUE, FALSE, 12)), Loose(FALSE, TRUE, -24), Loose(FALSE, FALSE, 0),
   Loose(FALSE, FALSE, 12), [Loose(TRUE, FALSE, 12) EXCEPT !.icp = FALSE, !.dx0 = <<1, 2>>]}
Icp(r) == [r EXCEPT !.icp = FALSE, !.dx0 = r.x0]
Sum(r) == [r EXCEPT !.sum = TRUE, !.name = "sum"]
(* solve calls: what the call leaves out comes from the problem *)
OnlyOpt == [Dae EXCEPT !.name = "onlyopt", !.popt = <<2>>, !.hopt = <<2>>, !.np1 = FALSE, !.ode1 = [E0 EXCEPT !.u1 = 6, !.h2 = 6, !.p2 = 6], !.S = [E0 EXCEPT !.x1 = 1, !.h2 = 1]]
Calls == LET From(r) == { [r EXCEPT !.x0 = x, !.dx0 = <<3, -1>>, !.last = l, !.dlast = IF l[1] = INF THEN l ELSE <<0, 1>>] :
                          x \in {<<3, -1>>, <<1, 2>>}, l \in IF r.last[1] = INF THEN {r.last} ELSE {<<0, 1>>, <<1, 0>>} }
         IN UNION { From(r) : r \in {Base, Late(Dae), Pol, Opt(FALSE), Opt(TRUE), Opt2(<<2, 1>>), Opt2(<<1, 2>>), OnlyOpt, Du2, Late(Du)} } \cup {Icp(Base), Icp(Opt(TRUE)), Icp(OnlyOpt)}
AllOf ==
  IF Focus = "calls" THEN Calls ELSE
  IF Focus = "guess" THEN { r \in Calls : r.x0 = r.dx0 } \cup { [Late(Time) EXCEPT !.dx0 = <<1, 2>>, !.deg = 3], [PolDae EXCEPT !.dx0 = <<1, 2>>], [Late(Pol) EXCEPT !.dx0 = <<1, 2>>] } ELSE
  IF Focus = "start" THEN Starts ELSE
  IF Focus = "traj" THEN {Base, Late(Base), [Base EXCEPT !.deg = 3], Dae, Late(Dae), [Dae EXCEPT !.deg = 3], Time, Late(Time), Pol, PolDae, Late(Pol), Bnd, BndY, BndU2, Opt(FALSE), Opt(TRUE), Opt2(<<1, 2>>), Opt2(<<2, 1>>), Icp(Base), Sum(Base), Sum(Late(Dae)), Sum(Pol), Sum(Opt(FALSE)),
     [Base EXCEPT !.name = "euler", !.deg = 1, !.ode2 = [E0 EXCEPT !.u2 = 6], !.L = [E0 EXCEPT !.u2 = 12, !.h2 = 6]]}
  ELSE {Du, Du2, DuN, Late(Du), Gs(<<"start", "end">>), Gs(<<"end", "default">>), Gs(<<"default", "default", "end">>), Late(Gs(<<"default", "default">>)), Gs(<<"end", "end">>),
     DuOne(<<NoB, <<-INF, 1>>>>), DuOne(<<<<-1, INF>>, NoB>>), DuOne(<<<<-INF, 0>>, <<0, INF>>>>),
     GeqV("end", "eq", 2), GeqV("default", "eq", 2), GeqV("start", "eq", 2), GeqV("end", "eq", 0), GeqV("default", "eq", 0), GeqV("start", "eq", 0),
     GeqV("end", "ineq", 2), GeqV("default", "ineq", 2), GeqV("start", "ineq", 2), GeqV("default", "ineq", 0),
     [PolG EXCEPT !.name = "polydu", !.dub = <<<<-1, 1>>, NoB>>], [Pol EXCEPT !.name = "polydu", !.dub = <<NoB, <<-INF, 5>>>>, !.last = <<0, 0>>],
     Geq("start"), Geq("end"), Geq("default"), Fin, Fin2, Late(Time)} \cup Starts
(* limits on the change of a control are defined for controls that are constant in the element *)
Accepted(p) == IF p.dc = 1 THEN TRUE ELSE p.dub = <<NoB, NoB>>
MSok(p) == \A i \in DOMAIN p.g : p.g[i].w # "start"
ProblemSet == { [p EXCEPT !.sch = s, !.n = n] : p \in AllOf, s \in Schemes, n \in Ns }
Probs == { p \in ProblemSet : (p.sch = "ms" => (MSok(p) /\ p.name # "euler")) /\ (p.sch = "coll" => ~p.sum) }
USet == { <<<<1, 1>>, <<0, 1>>>>, <<<<-1, 0>>, <<1, -1>>>>, <<<<2, -1>>, <<-1, 0>>>> }
UFlat == { <<<<1, 0>>, <<-1, 0>>>>, <<<<0, 0>>, <<0, 0>>>>, <<<<2, 0>>, <<3, 0>>>> }
HSet == { <<0, 1>>, <<1, -1>> }
PSet == { <<1, 0>>, <<-1, 2>> }
Emit == Done => PrintT(ToJson([q |-> q, ok |-> Accepted(q), p |-> par, els |-> els, broken |-> broken, viol |-> Violated(q, els, par), cost |-> Cost(q, els, par),
   grid |-> [x |-> StatePts(q), y |-> AlgPts(q), u |-> CtrlPts(q)]]))
Inv == Sound /\ Visible /\ AllRep
=============================================================================
