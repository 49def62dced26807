------------------------------ MODULE MC_AugLag ------------------------------
EXTENDS AugLag, Json
CONSTANTS Names, MaxIts, Len_
NoB == <<-INF, INF>>
R(own, s, e) == [own |-> own, s |-> s, z |-> 0, when |-> "default", e |-> e]
W(r, w) == [r EXCEPT !.when = w]
Base == [name |-> "one", sch |-> "coll", n |-> 2, d |-> 2, dt |-> 3, t0 |-> 0,
  ys |-> <<"y1">>, alg |-> <<R("y1", 1, [E0 EXCEPT !.x = -1, !.w = 2, !.p = 1])>>, rel |-> <<1>>, expl |-> FALSE,
  eqs |-> <<>>, rele |-> <<>>, sb |-> FALSE, xb |-> <<NoB>>, yb |-> <<<<-20, 30>>>>,
  mu0 |-> 2, mumax |-> 12, beta |-> 2, rule |-> "bounded-increase", impr |-> FALSE, tol2 |-> 1, maxit |-> 3, haspar |-> TRUE, hasth |-> TRUE, noupd |-> FALSE]
Thin(r) == [r EXCEPT !.d = 1]
(* two algebraic equations, one stays; their variables are in the other order *)
Two == [Base EXCEPT !.name = "two", !.ys = <<"y2", "y1">>,
  !.alg = <<[R("y1", 1, [E0 EXCEPT !.x = -1, !.p = 2, !.h = 1]) EXCEPT !.z = 1], R("y2", -1, [E0 EXCEPT !.x = 1, !.h = -1, !.c = 2])>>,
  !.rel = <<1>>, !.expl = TRUE, !.yb = <<<<-9, 9>>, <<-25, 25>>>>, !.t0 = 2]
Both == [Base EXCEPT !.name = "both", !.ys = <<"y1", "y2">>,
  !.alg = <<R("y1", 1, [E0 EXCEPT !.x = -1, !.p = 2, !.h = 1]), R("y2", -1, [E0 EXCEPT !.x = 1, !.h = -1, !.t = 1, !.c = 2])>>,
  !.rel = <<1, 2>>, !.yb = <<<<-40, 40>>, <<-30, 60>>>>, !.mu0 = 4, !.t0 = 2]
Swap == [Both EXCEPT !.name = "swap", !.rel = <<2, 1>>, !.expl = TRUE]
EqOnly == [Base EXCEPT !.name = "eq", !.ys = <<>>, !.alg = <<>>, !.rel = <<>>, !.yb = <<>>,
  !.eqs = <<R("v1", 1, [E0 EXCEPT !.x = 1, !.p = 1]), R("v2", -1, [E0 EXCEPT !.h = 2, !.w = 1, !.c = 1])>>, !.rele = <<2>>]
EqTwo == [EqOnly EXCEPT !.name = "eqtwo", !.rele = <<1, 2>>, !.rule = "primal"]
AlgEq == [EqOnly EXCEPT !.name = "algeq", !.ys = <<"y1">>, !.alg = Base.alg, !.rel = <<1>>, !.yb = Base.yb, !.rule = "primal"]
Sb == [EqOnly EXCEPT !.name = "sb", !.eqs = <<>>, !.rele = <<>>, !.sb = TRUE, !.xb = <<<<-4, 5>>>>]
SbAlg == [Base EXCEPT !.name = "sbalg", !.sb = TRUE, !.xb = <<<<-4, 5>>>>, !.rule = "primal"]
(* three equalities, valid at different times: the relaxed ones go, the others keep their times *)
Three(ws, rl) == [EqOnly EXCEPT !.name = "three", !.eqs = <<W(EqOnly.eqs[1], ws[1]), W(EqOnly.eqs[2], ws[2]), W(R("v3", 1, [E0 EXCEPT !.w = 2, !.x = -1]), ws[3])>>, !.rele = rl]
ED == <<"end", "default", "default">>
DE == <<"default", "end", "end">>
DED == <<"default", "end", "default">>
EDE == <<"end", "default", "end">>
All == [AlgEq EXCEPT !.name = "all", !.sb = TRUE, !.xb = <<<<-4, 5>>>>, !.rule = "bounded-increase"]
NoRelax == [Base EXCEPT !.name = "xbound", !.xb = <<<<-4, 5>>>>]
(* bounds on one side, and of one state of two *)
Low(r) == [r EXCEPT !.xb = <<<<-4, INF>>>>]
High(r) == [r EXCEPT !.xb = <<<<-INF, 5>>>>]
Second(r, b) == [r EXCEPT !.xb = <<NoB, b>>]
BothX(r) == [r EXCEPT !.xb = <<<<-4, INF>>, <<-6, 7>>>>]
(* bounds that tell the variables from each other *)
TwoA == [Two EXCEPT !.yb = <<<<-INF, INF>>, <<-5, 6>>>>]
TwoB == [Two EXCEPT !.yb = <<<<-5, 6>>, <<-INF, INF>>>>]
(* one of two equations is relaxed and its variable has the same place *)
Part == [Both EXCEPT !.name = "part", !.rel = <<2>>, !.yb = <<<<-INF, INF>>, <<-9, 12>>>>]
Swap2 == [Both EXCEPT !.name = "swap", !.ys = <<"y2", "y1">>, !.expl = TRUE, !.yb = <<<<-INF, 4>>, <<-3, INF>>>>]
Out(r) == [r EXCEPT !.noupd = TRUE, !.maxit = 1, !.name = "out"]
Plain(r) == [r EXCEPT !.haspar = FALSE]
Bare(r) == [r EXCEPT !.haspar = FALSE, !.hasth = FALSE]
Rule(r, u) == [r EXCEPT !.rule = u]
Impr(r) == [r EXCEPT !.impr = TRUE]
Tri(r) == [r EXCEPT !.d = 3]
MS(r) == [r EXCEPT !.sch = "ms"]
Candidates == {Low(Sb), High(Sb), Low(SbAlg), High(All), Second(Sb, <<-6, 7>>), Second(All, <<-6, INF>>), BothX(Sb), BothX(SbAlg), BothX(NoRelax), Second(NoRelax, <<-INF, 7>>), MS(BothX(Thin(All))),
  TwoA, TwoB, Swap2, Part, MS(Thin(Part)), MS(Thin(TwoA)), MS(Swap2), Out(Both), Out(All), Out(Rule(Both, "primal")), Out(Impr(Both)), Out(MS(AlgEq)), Out(Thin(EqTwo)), Out(BothX(SbAlg)), Out(Base),
  Three(DED, <<1, 3>>), Three(DED, <<3, 1>>), Three(EDE, <<1, 3>>), Three(DED, <<2>>), Three(EDE, <<2, 1>>), Three(ED, <<2>>), Three(ED, <<1>>), Three(DE, <<1>>), Three(DE, <<1, 3>>), Three(ED, <<1, 2>>), Three(ED, <<3, 1>>), Three(DE, <<2, 1>>), Base, Thin(Base), Two, Both, Thin(Both), Swap, EqOnly, EqTwo, AlgEq, Thin(AlgEq), Sb, SbAlg, All, Thin(All), NoRelax, Plain(Both), Bare(Base), Bare(AlgEq), Bare(Rule(Both, "primal")),
  Plain(Rule(EqTwo, "primal")), Rule(Both, "constant"), Rule(Both, "primal"), Impr(Both), Impr(Rule(AlgEq, "constant")), Impr(Rule(Both, "primal")), Impr(All),
  Tri(Both), Tri(AlgEq), MS(Base), MS(Thin(Both)), MS(AlgEq), MS(Tri(Two)), MS(Thin(All)), MS(Impr(Both)), MS(Plain(EqTwo)),
  [Both EXCEPT !.noupd = TRUE, !.maxit = 1], [All EXCEPT !.noupd = TRUE, !.maxit = 1], [Both EXCEPT !.tol2 = 3], [AlgEq EXCEPT !.tol2 = 3, !.n = 1], [All EXCEPT !.n = 3], [Two EXCEPT !.n = 3, !.tol2 = 5]}
Steady(pr) == pr.d = 3 \/ pr.sch = "ms"
FixT(pr) == IF Steady(pr) THEN [pr EXCEPT !.alg = [i \in DOMAIN pr.alg |-> [pr.alg[i] EXCEPT !.e.t = 0]]] ELSE pr
Probs == { FixT([pr EXCEPT !.maxit = IF pr.noupd THEN 1 ELSE m]) : pr \in { c \in Candidates : Names = {} \/ c.name \in Names }, m \in MaxIts }

(* residual patterns *)
Pat(pr, amp, a, b) == [k \in Els(pr) |-> [j \in Pts(pr) |-> amp * (IF k % 2 = 1 THEN a ELSE 1) * (IF j = 1 \/ Steady(pr) THEN b ELSE 1)]]
Shapes(pr) == {Pat(pr, 0, 1, 1), Pat(pr, 1, 1, 1), Pat(pr, -2, 1, 0), Pat(pr, 3, -1, 1), Pat(pr, 1, 0, 3), Pat(pr, -1, 2, -1)}
ShapeSeq(pr) == <<Pat(pr, 0, 1, 1), Pat(pr, 1, 1, 1), Pat(pr, -2, 1, 0), Pat(pr, 3, -1, 1), Pat(pr, 1, 0, 3), Pat(pr, -1, 2, -1), Pat(pr, 1, -2, -1)>>
Rs(pr) == IF NRow(pr) = 1 THEN { <<ShapeSeq(pr)[i]>> : i \in 1..7 }
          ELSE { [i \in 1..NRow(pr) |-> IF c = 0 THEN Pat(pr, 0, 1, 1) ELSE ShapeSeq(pr)[((c * i + b) % 7) + 1]] : c \in 0..3, b \in 0..6 }
Ws(pr) == IF Steady(pr) THEN {[k \in Els(pr) |-> 0]} ELSE {[k \in Els(pr) |-> 0], [k \in Els(pr) |-> IF k % 2 = 1 THEN 1 ELSE -1]}
Sl(pr) == IF Steady(pr) \/ pr.d = 1 \/ KeptEq(pr) = {} THEN {0} ELSE {0, 5}
As(pr) == { [p |-> p, h |-> [k \in Els(pr) |-> h + k], x0 |-> x] : p \in (IF pr.haspar THEN {0, 3} ELSE {0}), h \in (IF pr.hasth THEN {0, -2} ELSE {0}), x \in {1, -3} }
MusOf(pr) == {<<6>>, <<2, 8>>, <<4, 4, 10>>, [i \in 1..NRow(pr) |-> 2 * i]}
StartsOf(pr) == {<<>>, [i \in 1..NRow(pr) |-> [k \in Els(pr) |-> [j \in Pts(pr) |-> IF Steady(pr) THEN i + k ELSE i + 2 * k - 3 * j]]]}
ExosOf(pr) == { [n \in {"n1", "n2", "n3"} |-> IF n = "n1" THEN <<9 * a, 0>> ELSE IF n = "n2" THEN <<b, 2>> ELSE <<1, -b - a>>] : a \in 0..2, b \in 0..3 }
(* without theta h is zero *)
AsFix(pr) == IF pr.hasth THEN As(pr) ELSE { [a EXCEPT !.h = [k \in Els(pr) |-> 0]] : a \in As(pr) }
Emit == (TLCGet("level") = Len_ /\ Len_ > 0) => PrintT(ToJson([q |-> q, log |-> log]))
Every(S) == S
One(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
Small == TLCGet("level") <= 4
View == <<q, nu, mu, last, it, arg, calls, due, exo>>
=============================================================================
