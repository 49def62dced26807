------------------------------ MODULE MC_Kalman ------------------------------
EXTENDS Kalman, Json
CONSTANTS Filters, Len_
M1 == [nx |-> 1, a |-> 0, d |-> 0, f |-> 0, b1 |-> 1, b2 |-> 0, c |-> 0, g |-> 0, y |-> FALSE, k |-> <<0, 0, 0, 0>>]
M2 == [M1 EXCEPT !.nx = 2, !.a = 1, !.b2 = 1]
Y(m, k) == [m EXCEPT !.y = TRUE, !.k = k]
Models == {M1, [M1 EXCEPT !.c = 1, !.g = 1], Y(M1, <<2, 0, 1, -1>>), M2, [M2 EXCEPT !.d = 1, !.b1 = 0], [M2 EXCEPT !.f = 1, !.c = -1, !.g = 1],
           Y([M2 EXCEPT !.a = -1], <<1, -1, 0, 2>>), Y([M2 EXCEPT !.d = -1, !.f = 1], <<0, 2, 1, 0>>)}
Z1(c, cy, d, r) == [C |-> <<c>>, Cy |-> <<cy>>, D |-> <<d>>, R |-> <<<<r>>>>]
Z2(c1, c2, cy, d, R) == [C |-> <<c1, c2>>, Cy |-> cy, D |-> d, R |-> R]
Zs(m, fl) == { z \in (IF m.nx = 1 THEN {Z1(<<1>>, 0, 0, 1), Z1(<<2>>, 0, 1, 3), Z1(<<0>>, 1, 0, 2), Z1(<<1>>, 1, 0, 1), Z2(<<1>>, <<-1>>, <<0, 0>>, <<0, 2>>, <<<<2, 1>>, <<1, 3>>>>)}
      ELSE {Z1(<<1, 0>>, 0, 0, 1), Z1(<<0, 1>>, 0, 1, 2), Z1(<<1, -1>>, 0, 0, 1), Z1(<<0, 0>>, 1, 0, 1), Z1(<<1, 0>>, -1, 1, 2),
            Z2(<<1, 0>>, <<0, 1>>, <<0, 0>>, <<0, 0>>, <<<<1, 0>>, <<0, 2>>>>), Z2(<<0, 1>>, <<1, 1>>, <<0, 1>>, <<1, 0>>, <<<<2, 1>>, <<1, 1>>>>)}) :
      (\A i \in DOMAIN z.Cy : z.Cy[i] = 0) \/ (m.y /\ fl # "ekf") }
Ps(m) == IF m.nx = 1 THEN {<<<<1>>>>, <<<<4>>>>} ELSE {<<<<1, 0>>, <<0, 1>>>>, <<<<2, 1>>, <<1, 3>>>>, <<<<1, -1>>, <<-1, 2>>>>}
Qs(m) == IF m.nx = 1 THEN {<<<<0>>>>, <<<<3>>>>} ELSE {<<<<0, 0>>, <<0, 0>>>>, <<<<1, 0>>, <<0, 2>>>>, <<<<2, 1>>, <<1, 1>>>>}
X0s(m) == IF m.nx = 1 THEN {<<0>>, <<-3>>} ELSE {<<1, 2>>, <<-2, 0>>}
HasP(m) == m.c # 0 \/ m.f # 0
Every(S) == S
One(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
(* the cases of one model *)
Of(fl, m) == { [filter |-> fl, m |-> m, z |-> z, P0 |-> P, Q |-> Q, x0 |-> x, p |-> p, t0 |-> t] :
               z \in Zs(m, fl), P \in Ps(m), Q \in Qs(m), x \in X0s(m), p \in (IF HasP(m) THEN {0, 2} ELSE {0}), t \in {0, 3} }
Cs == UNION { Of(fl, m) : fl \in Filters, m \in Models }
Us == {-1, 0, 2}
Rs(c) == IF Len(c.z.C) = 1 THEN { <<r>> : r \in {-5, 0, 2, 9} } ELSE { <<r, s>> : r \in {-4, 1, 6}, s \in {-3, 0, 5} }
Emit == (Len_ > 0 /\ TLCGet("level") = Len_ /\ Len(log) > 0) => PrintT(ToJson([q |-> q, log |-> log]))
=============================================================================
