----------------------------- MODULE MC_Vectors -----------------------------
EXTENDS Vectors
CONSTANTS Len_
VARIABLES log
vars == <<log>>
Every(S) == S
One(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
Pick(S) == S
(* every step is a case of its own: a call, whether it is accepted, and what it gives *)
Case(op, ok, out) == log' = Append(log, [op |-> op, ok |-> ok, out |-> IF ok THEN out ELSE <<>>])

Syms == {"a", "b", "c", "d", "e"}
Perms(S, n) == {s \in [1..n -> S] : Cardinality(RangeOf(s)) = n}
Vecs == UNION {Perms(Syms, n) : n \in 0..4}
Short == UNION {[1..n -> Syms] : n \in 1..3}
Kinds == {"SX", "MX"}
Index == \E vec \in Pick(Vecs), var \in Pick(Short), k \in Pick({"SX"}) :
  Case([op |-> "index", vec |-> vec, var |-> var, k |-> k], TRUE, Indices(var, vec))
Remove_ == \E vec \in Pick(Vecs \ {<<>>}), var \in Pick(Short), k \in Pick({"SX"}) :
  Case([op |-> "remove", vec |-> vec, var |-> var, k |-> k], CanRemove(var, vec), Remove(var, vec))
Remove2 == \E vec \in Pick(Vecs \ {<<>>}) : \E n \in Pick(1..Len(vec)) : \E var \in Pick([1..n -> RangeOf(vec)]) :
  Case([op |-> "remove", vec |-> vec, var |-> var, k |-> "SX"], CanRemove(var, vec), Remove(var, vec))
RemoveIdx == \E vec \in Pick(Vecs), n \in Pick(0..3), k \in Pick({"SX", "MX", "DM"}) : \E idx \in Pick([1..n -> (0 - Len(vec) - 1)..Len(vec)]) :
  Case([op |-> "removeat", vec |-> vec, idx |-> idx, k |-> k], InBounds(idx, Len(vec)), RemoveAt(idx, vec))
RemoveIdx2 == \E vec \in Pick(Vecs \ {<<>>}), n \in Pick(1..3), k \in Pick({"SX", "MX", "DM"}) : \E idx \in Pick([1..n -> (0 - Len(vec))..(Len(vec) - 1)]) :
  Case([op |-> "removeat", vec |-> vec, idx |-> idx, k |-> k], InBounds(idx, Len(vec)), RemoveAt(idx, vec))

Letters == {"a", "A", "x"}
Names == UNION {[1..n -> Letters] : n \in 1..3}
Pats == UNION {[1..n -> Letters \cup {"."}] : n \in 1..3}
(* the patterns of one call do not fit the same name *)
Apart(ps, names) == \A i \in 1..Len(names) : Cardinality({k \in 1..Len(ps) : Fits(ps[k], names[i])}) <= 1
FindBy == \E n \in Pick(1..4), np \in Pick(1..2), exact \in Pick(BOOLEAN) : \E w1 \in Pick(Names), w2 \in Pick(Names), w3 \in Pick(Names), w4 \in Pick(Names) :
  \E raw \in Pick([1..np -> Pats]), e1 \in Pick(BOOLEAN), e2 \in Pick(BOOLEAN) :
  LET names == SubSeq(<<w1, w2, w3, w4>>, 1, n) IN
  LET ps0 == [i \in 1..np |-> [s |-> IF exact THEN [j \in 1..Len(raw[i]) |-> IF raw[i][j] = "." THEN "a" ELSE raw[i][j]] ELSE raw[i],
                               end |-> exact \/ (IF i = 1 THEN e1 ELSE e2)]] IN
  LET ps == IF Apart(ps0, names) THEN ps0 ELSE <<ps0[1]>> IN
  Case([op |-> "find", names |-> names, ps |-> ps, exact |-> exact], TRUE, Find(ps, names))
(* a model whose variables have these names: by type, in this order; one that fits is found, none or several are refused *)
Types == <<"x", "y", "u", "p", "theta">>
Lookup == \E n1 \in Pick(0..2), n2 \in Pick(0..2), n3 \in Pick(0..2), n4 \in Pick(0..2), n5 \in Pick(0..2) :
  \E a1 \in Pick([1..n1 -> Names]), a2 \in Pick([1..n2 -> Names]), a3 \in Pick([1..n3 -> Names]), a4 \in Pick([1..n4 -> Names]), a5 \in Pick([1..n5 -> Names]),
     s \in Pick(Pats), e \in Pick(BOOLEAN), ty \in Pick(1..8), listed \in Pick(BOOLEAN), single \in Pick(BOOLEAN) :
  LET all == <<a1, a2, a3, a4, a5>> IN
  LET which == IF ty <= 5 THEN <<ty>> ELSE IF ty = 6 THEN <<3, 1>> ELSE <<1, 2, 3, 4, 5>> IN
  LET found == Cat([k \in 1..Len(which) |-> [j \in 1..Len(Find(<<[s |-> s, end |-> e]>>, all[which[k]])) |->
                    [t |-> Types[which[k]], i |-> Find(<<[s |-> s, end |-> e]>>, all[which[k]])[j]]]]) IN
  Case([op |-> "lookup", all |-> all, ps |-> <<[s |-> s, end |-> e]>>, types |-> IF ty > 6 THEN <<>> ELSE [k \in 1..Len(which) |-> Types[which[k]]],
        listed |-> listed, single |-> single], ~ single \/ Len(found) = 1, found)

Nums == -3..3
KeyNo(keys, i) == CHOOSE k \in keys : Cardinality({l \in keys : l < k}) = i - 1
Theta(keys, vs) == [i \in 1..Cardinality(keys) |-> [k |-> KeyNo(keys, i), v |-> vs[i]]]
Cols(n) == [1..n -> Nums]
KeySets == {{0}, {0, 1}, {1, 2}, {0, 2}, {0, 1, 2}}
JoinT == \E m \in Pick(1..5), ks1 \in Pick(KeySets), ks2 \in Pick(KeySets), ks3 \in Pick(KeySets), n1 \in Pick(0..2), n2 \in Pick(1..2), n3 \in Pick(1..2), same \in Pick(1..4), gap \in Pick(0..4) :
  \E a1 \in Pick(Cols(n1)), a2 \in Pick(Cols(n1)), a3 \in Pick(Cols(n1)), b1 \in Pick(Cols(n2)), b2 \in Pick(Cols(n2)), b3 \in Pick(Cols(n2)), c1 \in Pick(Cols(n3)) :
  LET t1 == Theta(ks1, <<a1, a2, a3>>) IN LET t2 == Theta(IF same # 1 THEN ks1 ELSE ks2, <<b1, b2, b3>>) IN LET t3 == Theta(IF same # 2 THEN ks1 ELSE ks3, <<c1, c1, c1>>) IN
  LET ts == [i \in 1..m |-> IF i = gap THEN <<>> ELSE CASE i = 1 -> t1 [] i = 2 -> t2 [] i = 5 -> t2 [] OTHER -> t3] IN
  \E none \in Pick(BOOLEAN), back \in Pick(BOOLEAN) : Case([op |-> "join", ts |-> ts, none |-> none, back |-> back], CanJoin(ts), Join(ts))
ConstT == \E r \in Pick(0..3), c \in Pick(1..3), el \in Pick(0..3), vec \in Pick(BOOLEAN) : \E v1 \in Pick(Cols(3)), v2 \in Pick(Cols(3)), v3 \in Pick(Cols(3)) : LET v == SubSeq(v1 \o v2 \o v3, 1, IF vec /\ r > 0 THEN r * c ELSE 1) IN
  Case([op |-> "const", r |-> r, c |-> c, el |-> el, v |-> v], TRUE, Constant(v, r * c, el))

Coefs(n) == [1..n -> -2..2]
(* the polynomial of this degree through the values of a polynomial of no higher degree is that polynomial, row by row *)
Approx == \E deg \in Pick(1..3), zero \in Pick(BOOLEAN), size \in Pick(0..2), named \in Pick(BOOLEAN) :
  \E n \in Pick(1..(IF zero /\ deg > 1 THEN deg + 1 ELSE deg)) : \E c1 \in Pick(Coefs(n)), c2 \in Pick(Coefs(n)) : LET cs == SubSeq(<<c1, c2>>, 1, size) IN
  Case([op |-> "approx", deg |-> deg, zero |-> zero, size |-> size, cs |-> cs, named |-> named], TRUE, [i \in 1..size |-> [q \in 1..9 |-> PolyAt(cs[i], q - 1)]])
(* written in the time of an element: tau = (t - t_k) / (t_kp1 - t_k); at the quarters of the element the same values *)
InTime == \E n \in Pick(1..4), tk \in Pick(-2..2), h \in Pick(1..3) : \E c \in Pick(Coefs(n)) :
  Case([op |-> "time", c |-> c, tk |-> tk, h |-> h], TRUE, [q \in 1..9 |-> PolyAt(c, q - 1)])
Ent == [1..4 -> -2..2]
Expo == \E n \in Pick(1..4), sym \in Pick(BOOLEAN), sparse \in Pick(BOOLEAN) : \E p \in Pick({q \in [1..n -> 1..n] : Cardinality(RangeOf(q)) = n}) : \E r1 \in Pick(Ent), r2 \in Pick(Ent), r3 \in Pick(Ent), r4 \in Pick(Ent) :
  LET u == <<r1, r2, r3, r4>> IN LET A == [i \in 1..n |-> [j \in 1..n |-> IF p[i] < p[j] THEN u[i][j] ELSE 0]] IN
  Nilpotent(A) /\ Case([op |-> "expm", A |-> A, sym |-> sym, sparse |-> sparse], TRUE, Six(A))
Rel == \E r \in Pick({"le", "lt", "ge", "gt", "eq", "plus", "number", "ne"}), k \in Pick(Kinds) :
  Case([op |-> "rel", r |-> r, k |-> k], TRUE, [ineq |-> r \in {"le", "lt", "ge", "gt"}, eq |-> r = "eq"])

(* a stop watch: what it reads after each of several blocks, and nothing before the first is over *)
Watch == \E a \in Pick(0..5), d1 \in Pick(0..9), d2 \in Pick(0..9), n \in Pick(0..2), ms \in Pick(BOOLEAN) :
  Case([op |-> "watch", a |-> a, ds |-> SubSeq(<<d1, d2>>, 1, n), ms |-> ms], n > 0, [i \in 1..n |-> (IF ms THEN 1000 ELSE 1) * (IF i = 1 THEN d1 ELSE d2)])

Init == log = <<>>
Next == Len(log) < Len_ /\ \E t \in Pick(1..17) :
  CASE t = 1 -> Index [] t = 2 -> Remove_ [] t = 3 -> Remove2 [] t = 4 -> RemoveIdx [] t = 5 -> RemoveIdx2 [] t \in {6, 7} -> FindBy [] t \in {8, 9} -> Lookup
    [] t \in {10, 11} -> JoinT [] t = 12 -> ConstT [] t = 13 -> Approx [] t = 14 -> InTime [] t = 15 -> Expo [] t = 17 -> Watch [] OTHER -> Rel
Spec == Init /\ [][Next]_vars
EmitEnd == (Len(log) = Len_) => PrintT(ToJson(log))
=============================================================================
