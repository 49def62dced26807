------------------------------ MODULE MC_Chaos ------------------------------
EXTENDS Chaos, Json
CONSTANTS Len_, Shapes
Every(S) == S
One(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
Means(n, d) == IF d > 4 THEN {<<0>>, <<1>>} ELSE IF n = 1 THEN {<<0>>, <<2>>, <<-1>>} ELSE IF n = 2 THEN {<<0, 1>>, <<-1, 2>>} ELSE {<<1, 0, -1>>, <<0, 2, 1>>}
Ls(n, d) == IF n = 1 THEN {<<<<1>>>>} \cup (IF d > 4 THEN {} ELSE {<<<<2>>>>, <<<<3>>>>})
            ELSE IF n = 2 THEN {<<<<1, 0>>, <<0, 1>>>>, <<<<2, 0>>, <<-1, 1>>>>, <<<<1, 0>>, <<2, 2>>>>}
            ELSE {<<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>, <<<<1, 0, 0>>, <<-1, 2, 0>>, <<1, 1, 1>>>>}
Cs == UNION { { [n |-> s[1], order |-> s[2], mean |-> m, L |-> l, extra |-> k, log |-> b, listed |-> v] :
               m \in Means(s[1], s[2]), l \in Ls(s[1], s[2]), k \in {0, 3}, b \in BOOLEAN, v \in BOOLEAN } : s \in Shapes }
Ts(c) == { [c |-> k, e |-> e] : k \in {-1, 1, 2}, e \in Exps(c.n, IF c.order > 6 THEN 5 ELSE c.order) }
Pairs(f) == { [e |-> e, c |-> f[e]] : e \in DOMAIN f }
Emit == (Len_ > 0 /\ TLCGet("level") = Len_) =>
   PrintT(ToJson([q |-> q, g |-> g, mean |-> out.mean, var |-> out.var, coefs |-> Pairs(out.c),
                  at |-> { [z |-> z, g |-> At(g, X(z)), psi |-> { [e |-> e, v |-> Psi(e, z)] : e \in Exps(q.n, q.order) }] : z \in Points }]))
=============================================================================
