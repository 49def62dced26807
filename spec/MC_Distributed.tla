-------------------------- MODULE MC_Distributed ---------------------------
EXTENDS Distributed, Json
CONSTANTS Focus
Edge(a, b, ys, us) == [a |-> a, b |-> b, ys |-> ys, us |-> us]
Rep(n, v) == [i \in 1..n |-> v]
Base == [n |-> 2, ny |-> <<1, 1>>, nin |-> <<0, 1>>, mid |-> {}, edges |-> <<Edge(1, 2, <<1>>, <<1>>)>>, blocks |-> <<<<1>>, <<2>>>>,
  e |-> 2, d |-> 2, rule |-> "bounded-increase", mu0 |-> 1, beta |-> 2, bdec |-> 2, mumax |-> 3, maxin |-> 2, maxfirst |-> 0, maxout |-> 2,
  fails |-> FALSE, jacobi |-> FALSE, gy |-> <<NONE, NONE>>, gu |-> <<NONE, NONE>>, t0 |-> 0]
(* topologies *)
Pair == Base
Wide == [Base EXCEPT !.ny = <<2, 1>>, !.nin = <<0, 3>>, !.edges = <<Edge(1, 2, <<2, 1>>, <<1, 3>>)>>]
Cross == [Base EXCEPT !.ny = <<2, 2>>, !.nin = <<1, 2>>, !.edges = <<Edge(1, 2, <<1, 2>>, <<2, 1>>), Edge(2, 1, <<2>>, <<1>>)>>]
Three(ny, nin, ed, bl) == [Base EXCEPT !.n = 3, !.ny = ny, !.nin = nin, !.edges = ed, !.blocks = bl, !.gy = Rep(3, NONE), !.gu = Rep(3, NONE)]
Line == Three(<<1, 1, 1>>, <<0, 1, 1>>, <<Edge(1, 2, <<1>>, <<1>>), Edge(2, 3, <<1>>, <<1>>)>>, <<<<1, 3>>, <<2>>>>)
LineB == [Line EXCEPT !.blocks = <<<<2>>, <<3, 1>>>>]
LineC == [Line EXCEPT !.blocks = <<<<3>>, <<2>>, <<1>>>>]
Fan == Three(<<2, 1, 1>>, <<0, 2, 1>>, <<Edge(1, 2, <<2, 1>>, <<1, 2>>), Edge(1, 3, <<2>>, <<1>>)>>, <<<<1>>, <<2, 3>>>>)
Join == Three(<<1, 2, 1>>, <<0, 0, 3>>, <<Edge(1, 3, <<1>>, <<2>>), Edge(2, 3, <<2, 1>>, <<1, 3>>)>>, <<<<2, 1>>, <<3>>>>)
Ring == Three(<<1, 1, 1>>, <<1, 1, 1>>, <<Edge(1, 2, <<1>>, <<1>>), Edge(2, 3, <<1>>, <<1>>), Edge(3, 1, <<1>>, <<1>>)>>, <<<<1>>, <<3>>, <<2>>>>)
Plain == {Pair, Wide, Cross, Line, LineB, LineC, Fan, Join, Ring}
(* an intermediary node in every connection *)
Mids(r, order) ==
  LET m == Len(r.edges)
      w(i) == Len(r.edges[i].ys)
      Count(i) == [k \in 1..w(i) |-> k]
      RECURSIVE Split(_)
      Split(i) == IF i > m THEN <<>> ELSE <<Edge(r.edges[i].a, r.n + i, r.edges[i].ys, Count(i)), Edge(r.n + i, r.edges[i].b, Count(i), r.edges[i].us)>> \o Split(i + 1)
      ds == [i \in 1..m |-> r.n + i]
      ns == [i \in 1..r.n |-> i]
  IN [r EXCEPT !.n = @ + m, !.ny = @ \o [i \in 1..m |-> w(i)], !.nin = @ \o [i \in 1..m |-> w(i)], !.mid = {r.n + i : i \in 1..m}, !.edges = Split(1),
       !.gy = @ \o Rep(m, NONE), !.gu = @ \o Rep(m, NONE), !.blocks = IF order = "before" THEN <<ds, ns>> ELSE <<ns, ds>>]
WithMid == { Mids(r, o) : r \in {Pair, Wide, Line, Join, Cross}, o \in {"before", "after"} }
(* options *)
Opts(r) == { [r EXCEPT !.rule = o[1], !.mu0 = o[2], !.mumax = o[3], !.maxin = o[4], !.maxfirst = o[5], !.maxout = o[6], !.beta = IF o[1] = "primal-dual" THEN 4 ELSE 2] :
   o \in { <<"constant", 2, 100, 2, 0, 3>>, <<"bounded-increase", 1, 3, 2, 0, 3>>, <<"bounded-increase", 2, 100, 1, 3, 2>>, <<"primal-dual", 4, 100, 1, 0, 3>>, <<"constant", 1, 100, 3, 2, 1>> } }
Sizes(r) == { [r EXCEPT !.e = o[1], !.d = o[2], !.t0 = o[3]] : o \in {<<2, 2, 0>>, <<1, 3, 3>>, <<3, 1, 1>>} }
Guesses(r) == { r, [r EXCEPT !.gy = [n \in DOMAIN r.gy |-> IF n \in r.mid THEN NONE ELSE n], !.gu = [n \in DOMAIN r.gu |-> IF n \in r.mid THEN NONE ELSE 2 - n]],
   [r EXCEPT !.gy = [n \in DOMAIN r.gy |-> IF n \in r.mid THEN NONE ELSE 3 - n]] }
Full(X) == UNION { UNION { UNION { Guesses(r3) : r3 \in Sizes(r2) } : r2 \in Opts(r1) } : r1 \in X }
Failing(X) == { [r EXCEPT !.fails = TRUE] : r \in { z \in X : z.rule # "primal-dual" } }
Jacobi(X) == { [r EXCEPT !.jacobi = TRUE, !.mu0 = 2 * @, !.mumax = 2 * @] : r \in { z \in X : z.rule # "primal-dual" } }
ConfigSet == IF Focus = "jacobi" THEN Jacobi(Full(Plain)) ELSE IF Focus = "plain" THEN Full(Plain) ELSE IF Focus = "mid" THEN Full(WithMid) ELSE Failing(Full(Plain))
One(X) == {RandomElement(X)}
Every(X) == X
Emit == (s.phase = "done" /\ s.exact) => PrintT(ToJson([c |-> c, log |-> log, ans |-> s.ans, errs |-> [n \in Nodes(c) |-> IF s.ans[n].has THEN Errs(c, s, n) ELSE <<>>],
   obj |-> Objective(c, s), inner |-> s.inner, outer |-> s.outer, rounds |-> s.rounds, mu |-> s.mu, first |-> \A n \in Nodes(c) : s.ans[n].has]))
=============================================================================
