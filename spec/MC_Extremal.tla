---------------------------- MODULE MC_Extremal -----------------------------
EXTENDS Extremal, Json
CONSTANTS Pick(_)
Rnd(S) == {RandomElement(S)}
Every(S) == S
Shapes == { [order |-> o, alg |-> a, fix |-> f, n |-> n] : o \in {1, 2}, a \in {"no", "cost", "chain"}, f \in {{}, {1}, {1, 2}}, n \in {1, 2, 3} }
OkShape(s) == (s.alg = "chain" => s.order = 2) /\ (s.order = 1 => 2 \notin s.fix)
VARIABLE phase
Init == phase = "shape" /\ prob \in {s \in Shapes : OkShape(s)}
K(S) == {SC * v : v \in S}
A == phase = "shape" /\ \E t0 \in Pick({0, 2}), dt \in Pick({1, 2}), x01 \in Pick({-1, 2}), x02 \in Pick({0, 1}), b \in Pick({1, -1, 2}), e \in Pick({0, 1, -1}),
         al \in Pick(IF prob.alg = "chain" THEN {1, 2, -2} ELSE {1, 2, -1}), be \in Pick({0, 1, -1}), ga \in Pick({0, 1}), de \in Pick({0, 1, -2}), s \in Pick({0, 1, -1}), k \in Pick({0, 1, -1}), m \in Pick({0, 1}) :
      /\ prob' = [order |-> prob.order, alg |-> prob.alg, fix |-> prob.fix, n |-> prob.n, t0 |-> t0, dt |-> dt, x0 |-> <<SC * x01, SC * x02>>, b |-> b, e |-> e,
            al |-> al, be |-> be, ga |-> ga, de |-> de, s |-> s, k |-> k, m |-> m]
      /\ phase' = "data"
B == phase = "data" /\ \E v1 \in Pick(K({0, 1, -1})), v2 \in Pick(K({0, 1})), q1 \in Pick(K({0, 1, -1, 2})), q2 \in Pick(K({0, 1})), ka \in Pick(K({0, 0, 1})), w \in Pick(K({0, 1, -1})),
         p \in Pick(K({1, -2})), h1 \in Pick(K({0, 1})), h2 \in Pick(K({0, -1})), h3 \in Pick(K({1, -1})), e1 \in Pick(K({1, -1, 2})), e2 \in Pick(K({1, -1})), bd \in Pick({"free", "box", "low", "high"}), lo \in Pick(K({-2, -1, 0, 1})), hi \in Pick(K({0, 1, 2, 3})) :
      LET r == prob @@ [v1 |-> v1, v2 |-> IF prob.order = 2 THEN v2 ELSE 0, q1 |-> q1, q2 |-> IF prob.order = 2 THEN q2 ELSE 0,
                 w |-> IF prob.alg = "no" THEN 0 ELSE w, p |-> p, h |-> <<h1, h2, h3>>,
                 eta |-> <<IF 1 \in prob.fix THEN e1 ELSE 0, IF 2 \in prob.fix THEN e2 ELSE 0>>]
          lin == r @@ [ka |-> ka, umin |-> -INF, umax |-> INF]
          boxed == r @@ [ka |-> 0, umin |-> IF bd = "high" \/ hi <= lo THEN -INF ELSE lo, umax |-> IF bd = "low" THEN INF ELSE hi]
      IN /\ prob' = IF bd = "free" \/ prob.fix # {} \/ ~Decided(boxed) THEN lin ELSE boxed
         /\ phase' = "done"
Next == A \/ B
Emit == phase = "done" => PrintT(ToJson([q |-> prob, sol |-> Sol(prob), xf |-> <<Xf(prob, 1), IF prob.order = 2 THEN Xf(prob, 2) ELSE 0>>]))
Inv == phase = "done" => Minimal /\ Continuous
=============================================================================
