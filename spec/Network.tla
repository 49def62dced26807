------------------------------- MODULE Network -------------------------------
(* Network: subsystems (nodes with a model and possibly a problem) and the  *)
(* connections between their variables, under every history of edits, and   *)
(* the single model / single problem it stands for                          *)
(* (yaocptool/modelling/network).                                           *)
(*                                                                          *)
(* w.o the Ocp world; w.obj : every Node object; w.in the nodes of the      *)
(* network; w.edges the connections, one per ordered pair of nodes, whose   *)
(* y[i] feeds u[i]; w.inter: connections go through intermediary nodes.     *)
EXTENDS Ocp

NoId == -1
NetInit(o, inter) == [o |-> o, obj |-> [k \in {} |-> 0], in |-> <<>>, edges |-> <<>>, inter |-> inter, made |-> 0]
OkN(w) == [w |-> w, out |-> "ok"]
NoN(w) == [w |-> w, out |-> "rejected"]

(* the model a node works with: that of its problem when it has one *)
ModelOf(w, k) == IF w.obj[k].prob THEN w.o.ps[w.obj[k].s].m ELSE w.o.um[w.obj[k].s]
Ids(w) == {w.obj[w.in[i]].id : i \in 1..Len(w.in)}
FreshId(taken) == CHOOSE i \in 0..Cardinality(taken) : i \notin taken /\ \A j \in 0..(i - 1) : j \in taken

(* ---- nodes ----------------------------------------------------------- *)
(* Node(...): an object that belongs to no network yet; without a name it is called like its model *)
NewNode(w, op) == OkN([w EXCEPT !.obj = PutIn(@, op.k, [id |-> op.id, name |-> IF op.name = "" THEN op.s ELSE op.name, s |-> op.s, prob |-> op.prob])])
(* include_nodes(list): those that are there already stay; a node without id gets one no other node has *)
RECURSIVE Enter(_, _, _)
Enter(w, ks, reserved) ==
  IF ks = <<>> THEN w
  ELSE LET k == Head(ks)
           n == w.obj[k]
           id == IF n.id = NoId THEN FreshId(Ids(w) \cup reserved) ELSE n.id
       IN Enter(IF InSeq(k, w.in) THEN w ELSE [w EXCEPT !.obj[k].id = id, !.in = Append(@, k)], Tail(ks), reserved)
Preset(w, ks) == {w.obj[ks[i]].id : i \in 1..Len(ks)} \ {NoId}
IncludeN(w, op) == OkN(Enter(w, op.ks, Preset(w, op.ks)))

(* ---- connections ------------------------------------------------------ *)
EdgeAt(w, a, b) == {i \in 1..Len(w.edges) : w.edges[i].a = a /\ w.edges[i].b = b}
Wire(w, a, b, ys, us) ==
  LET E == EdgeAt(w, a, b)
      w1 == Enter(w, <<a, b>>, Preset(w, <<a, b>>))
  IN IF E = {} THEN [w1 EXCEPT !.edges = Append(@, [a |-> a, b |-> b, y |-> ys, u |-> us])]
     ELSE LET i == CHOOSE i \in E : TRUE IN [w1 EXCEPT !.edges[i].y = @ \o ys, !.edges[i].u = @ \o us]
(* a new node whose model passes its inputs on: it stands between a and b *)
Between(w, a, b, ys, us) ==
  LET s == "i" \o ToString(w.made + 1)
      n == Len(us)
      uu == [i \in 1..n |-> s \o ".u" \o ToString(i)]
      yy == [i \in 1..n |-> s \o ".y" \o ToString(i)]
      m == [Empty("t:" \o s, "tau:" \o s, FALSE) EXCEPT !.u = uu, !.uexpr = SymSeq(uu), !.upar = uu, !.y = yy,
               !.alg = [i \in 1..n |-> Sub(Sym(uu[i]), Sym(yy[i]))]]
      pa == w.o.ps[w.obj[a].s]
      o1 == [w.o EXCEPT !.um = PutIn(@, s, m), !.ps = PutIn(@, s, NewP(m, <<>>, pa.t0, pa.tf)),
                        !.nm = PutSeq(PutSeq(@, uu, [i \in 1..n |-> "Dummy_" \o w.o.nm[ys[i]]]), yy, [i \in 1..n |-> "Dummy_" \o w.o.nm[us[i]]])]
      w1 == [w EXCEPT !.o = o1, !.made = @ + 1,
                      !.obj = PutIn(@, s, [id |-> NoId, name |-> "Dummy_node_" \o w.obj[a].name \o "_to_" \o w.obj[b].name, s |-> s, prob |-> TRUE])]
      w2 == Enter(w1, <<a, b>>, Preset(w1, <<a, b>>))
  IN Wire(Wire(Enter(w2, <<s>>, {}), a, s, ys, uu), s, b, yy, us)
HasAll(w, k, vs) == RangeOf(vs) \subseteq RangeOf(AllVars(ModelOf(w, k)))
ConnectN(w, op) ==
  IF Len(op.ys) # Len(op.us) \/ ~HasAll(w, op.a, op.ys) \/ ~HasAll(w, op.b, op.us) THEN NoN(w)
  ELSE OkN(IF w.inter THEN Between(w, op.a, op.b, op.ys, op.us) ELSE Wire(w, op.a, op.b, op.ys, op.us))
Disconnect(w, op) == LET E == EdgeAt(w, op.a, op.b) IN
  IF E = {} THEN NoN(w) ELSE OkN([w EXCEPT !.edges = RemoveIdx(@, E)])
(* insert_intermediary_nodes: every connection gets a node in its middle, every node stays *)
RECURSIVE BetweenAll(_, _)
BetweenAll(w, es) == IF es = <<>> THEN w ELSE BetweenAll(Between(w, Head(es).a, Head(es).b, Head(es).y, Head(es).u), Tail(es))
RECURSIVE BySource(_, _)
BySource(es, ks) == IF ks = <<>> THEN <<>> ELSE SelectSeq(es, LAMBDA e : e.a = Head(ks)) \o BySource(es, Tail(ks))
InsertAll(w, op) == OkN(BetweenAll([w EXCEPT !.edges = <<>>], BySource(w.edges, w.in)))

ApplyN(w, op) ==
  CASE op.op = "newnode" -> NewNode(w, op)
    [] op.op = "include" -> IncludeN(w, op)
    [] op.op = "connect" -> ConnectN(w, op)
    [] op.op = "disconnect" -> Disconnect(w, op)
    [] op.op = "insert" -> InsertAll(w, op)

(* ---- the composition --------------------------------------------------- *)
RECURSIVE ById(_, _)
ById(w, S) == IF S = {} THEN <<>>
  ELSE LET k == CHOOSE k \in S : \A j \in S : w.obj[k].id <= w.obj[j].id IN <<k>> \o ById(w, S \ {k})
Order(w) == ById(w, RangeOf(w.in))
RECURSIVE FedBy(_)
FedBy(es) == IF es = <<>> THEN <<>> ELSE Head(es).u \o FedBy(Tail(es))
Feasible(w, us) == Distinct(FedBy(w.edges)) /\ RangeOf(FedBy(w.edges)) \subseteq RangeOf(us)
RECURSIVE AbsorbNodes(_, _, _)
AbsorbNodes(w, r, ks) == IF ks = <<>> THEN r ELSE AbsorbNodes(w, Absorb(r, ModelOf(w, Head(ks))), Tail(ks))
RECURSIVE ConnectAll(_, _)
ConnectAll(mw, es) == IF es = <<>> THEN mw
  ELSE ConnectAll(Apply(mw, [op |-> "connect", m |-> "net", us |-> Head(es).u, ys |-> SymSeq(Head(es).y), replace |-> FALSE]).w, Tail(es))
None == [k |-> "rejected"]
GetModel(w) ==
  LET r == AbsorbNodes(w, Empty("t:net", "tau:net", FALSE), Order(w))
  IN IF ~Feasible(w, r.u) THEN None
     ELSE [k |-> "ok", v |-> ConnectAll([ms |-> [m \in {"net"} |-> r], nm |-> w.o.nm], w.edges).ms["net"]]
RECURSIVE ConnectAllP(_, _)
ConnectAllP(o, es) == IF es = <<>> THEN o
  ELSE ConnectAllP(ConnectP(o, [s |-> "net", us |-> Head(es).u, ys |-> SymSeq(Head(es).y), replace |-> FALSE]).w, Tail(es))
GetProblem(w) ==
  LET ks == Order(w)
      slots == [i \in 1..Len(ks) |-> w.obj[ks[i]].s]
      f == w.o.ps[slots[1]]
      o1 == PutP(w.o, "net", NewP(Empty("t:net", "tau:net", FALSE), <<>>, f.t0, f.tf))
      res == MergeP(o1, [s |-> "net", from |-> slots])
  IN IF ks = <<>> THEN None
     ELSE IF \E i \in 1..Len(ks) : ~w.obj[ks[i]].prob THEN None
     ELSE IF res.out = "rejected" THEN None
     ELSE IF ~Feasible(w, res.w.ps["net"].m.u) THEN None
     ELSE [k |-> "ok", v |-> ConnectAllP(res.w, w.edges)]

(* ---- observation -------------------------------------------------------- *)
NetNames(w, s) == [i \in 1..Len(s) |-> w.obj[s[i]].name]
ProjN(w) ==
  LET gm == GetModel(w) gp == GetProblem(w) IN
  [nodes |-> [k \in RangeOf(w.in) |-> [id |-> w.obj[k].id, name |-> w.obj[k].name]],
   order |-> Order(w),
   edges |-> {[a |-> e.a, b |-> e.b, y |-> e.y, u |-> e.u] : e \in RangeOf(w.edges)},
   models |-> [k \in RangeOf(w.in) |-> ProjM(w.o, ModelOf(w, k))],
   single |-> IF gm.k = "ok" THEN <<ProjM(w.o, gm.v)>> ELSE <<>>,
   problem |-> IF gp.k = "ok" THEN <<ProjP(gp.v, "net")>> ELSE <<>>]

(* ---- properties of the design -------------------------------------------- *)
UniqueIds(w) == \A i, j \in 1..Len(w.in) : i # j => w.in[i] # w.in[j] /\ w.obj[w.in[i]].id # w.obj[w.in[j]].id /\ w.obj[w.in[i]].id # NoId
EdgesInside(w) == \A e \in RangeOf(w.edges) : InSeq(e.a, w.in) /\ InSeq(e.b, w.in) /\ Len(e.y) = Len(e.u)
                    /\ HasAll(w, e.a, e.y) /\ HasAll(w, e.b, e.u)
(* composing adds one equation and one unknown per connection: nothing is lost or double counted *)
RECURSIVE Total(_, _)
Total(f, S) == IF S = {} THEN 0 ELSE LET k == CHOOSE k \in S : TRUE IN f[k] + Total(f, S \ {k})
Conserved(w) ==
  LET gm == GetModel(w)
      S == RangeOf(w.in)
      n == Len(FedBy(w.edges)) IN
  gm.k = "ok" =>
    /\ Len(gm.v.x) = Total([k \in S |-> Len(ModelOf(w, k).x)], S)
    /\ Len(gm.v.y) = Total([k \in S |-> Len(ModelOf(w, k).y)], S) + n
    /\ Len(gm.v.alg) = Total([k \in S |-> Len(ModelOf(w, k).alg)], S) + n
    /\ Len(gm.v.u) = Total([k \in S |-> Len(ModelOf(w, k).u)], S) - n
    /\ \A k \in S : ~Mentions(gm.v, ModelOf(w, k).t) /\ ~Mentions(gm.v, ModelOf(w, k).tau)
ProblemHasModel(w) ==
  LET gm == GetModel(w) gp == GetProblem(w) IN
  gp.k = "ok" => /\ gm.k = "ok" /\ AlignedP(gp.v.ps["net"]) /\ RolesDisjoint(gp.v.ps["net"].m)
                 /\ RangeOf(gp.v.ps["net"].m.alg) = RangeOf(gm.v.alg) /\ gp.v.ps["net"].m.odes = gm.v.odes
NetInv(w) == UniqueIds(w) /\ EdgesInside(w) /\ Conserved(w) /\ ProblemHasModel(w)
NetStep(w, op, res) ==
  /\ res.out = "rejected" => res.w = w
  /\ \A s \in DOMAIN w.o.ps : res.w.o.ps[s] = w.o.ps[s]
  /\ \A s \in DOMAIN w.o.um : res.w.o.um[s] = w.o.um[s]
  /\ RangeOf(w.in) \subseteq RangeOf(res.w.in)
  (* what the network stands for is the same with and without nodes in the middle *)
  /\ op.op = "insert" => LET a == GetModel(w) b == GetModel(res.w) IN
        /\ a.k = b.k
        /\ a.k = "ok" => a.v.x = b.v.x /\ RangeOf(a.v.u) = RangeOf(b.v.u) /\ RangeOf(a.v.y) \subseteq RangeOf(b.v.y)

(* groups of nodes that may be worked on at the same time: every node in exactly one, no two neighbours in one, *)
(* and no more than one group above the largest number of neighbours a node has                                  *)
Neighbours(nodes, edges, k) == {j \in nodes : j # k /\ \E e \in edges : e = <<k, j>> \/ e = <<j, k>>}
Parted(nodes, edges, groups) ==
  /\ \A k \in nodes : Cardinality({i \in 1..Len(groups) : InSeq(k, groups[i])}) = 1
  /\ \A i \in 1..Len(groups) : groups[i] # <<>> /\ Distinct(groups[i]) /\ RangeOf(groups[i]) \subseteq nodes
  /\ \A i \in 1..Len(groups) : \A j \in RangeOf(groups[i]) : Neighbours(nodes, edges, j) \cap RangeOf(groups[i]) = {}
GoodGroups(nodes, edges, groups) ==
  /\ Parted(nodes, edges, groups)
  /\ nodes # {} => \E k \in nodes : Len(groups) <= 1 + Cardinality(Neighbours(nodes, edges, k))
==============================================================================
