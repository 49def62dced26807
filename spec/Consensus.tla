----------------------------- MODULE Consensus ------------------------------
(* Networks whose composed optimum is known in closed form.                  *)
(*                                                                           *)
(* pair: node a chooses y, node b chooses v, v = y; the cost is              *)
(*   al (y - A)^2 + be (v - B)^2, where A and B are affine in time.          *)
(* line: a chooses y, b takes v and offers z, c takes w; v = y and w = z;    *)
(*   the cost is al (y - A)^2 + ga (v - z)^2 + al (w - B)^2.                 *)
(* Functions of time are pairs <<c0, c1>>, the optimum is a pair over den.   *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT Focus
VARIABLE k
Sc(a, f) == <<a * f[1], a * f[2]>>
Ad(f, g) == <<f[1] + g[1], f[2] + g[2]>>
Mi(f, g) == <<f[1] - g[1], f[2] - g[2]>>
Den(c) == IF c.net = "pair" THEN c.al + c.be ELSE c.al + 2 * c.ga
Y(c) == IF c.net = "pair" THEN Ad(Sc(c.al, c.A), Sc(c.be, c.B)) ELSE Ad(Sc(c.al + c.ga, c.A), Sc(c.ga, c.B))
Z(c) == IF c.net = "pair" THEN Y(c) ELSE Ad(Sc(c.ga, c.A), Sc(c.al + c.ga, c.B))
(* the gradients of the cost in y and in z, times den *)
GradY(c, y, z) == IF c.net = "pair" THEN Ad(Sc(c.al, Mi(y, Sc(Den(c), c.A))), Sc(c.be, Mi(y, Sc(Den(c), c.B))))
                  ELSE Ad(Sc(c.al, Mi(y, Sc(Den(c), c.A))), Sc(c.ga, Mi(y, z)))
GradZ(c, y, z) == IF c.net = "pair" THEN <<0, 0>> ELSE Ad(Sc(c.al, Mi(z, Sc(Den(c), c.B))), Sc(c.ga, Mi(z, y)))
Stationary(c) == GradY(c, Y(c), Z(c)) = <<0, 0>> /\ GradZ(c, Y(c), Z(c)) = <<0, 0>>
(* the cost rate at the optimum is cost * (A - B)^2 / den *)
Rate(c) == IF c.net = "pair" THEN c.al * c.be ELSE c.al * c.ga
(* cost rate at time t of any choice, times den^2 *)
At(f, t) == f[1] + f[2] * t
Sq(a) == a * a
J(c, y, z, t) == IF c.net = "pair" THEN c.al * Sq(y - Den(c) * At(c.A, t)) + c.be * Sq(y - Den(c) * At(c.B, t))
                 ELSE c.al * Sq(y - Den(c) * At(c.A, t)) + c.ga * Sq(y - z) + c.al * Sq(z - Den(c) * At(c.B, t))
Least(c) == \A t \in {0, 1, 3} :
  /\ J(c, At(Y(c), t), At(Z(c), t), t) = Rate(c) * Den(c) * Sq(At(Mi(c.A, c.B), t))
  /\ \A dy \in {-5, -1, 0, 1, 4}, dz \in {-3, 0, 2} : J(c, At(Y(c), t), At(Z(c), t), t) <= J(c, At(Y(c), t) + dy, At(Z(c), t) + (IF c.net = "pair" THEN dy ELSE dz), t)
(* the integral of the rate over [t0, t0 + T], times 3 den *)
Cube(a) == a * a * a
Cost3(c) == LET d == Mi(c.A, c.B)
            IN Rate(c) * (3 * Sq(d[1]) * c.T + 3 * d[1] * d[2] * (Sq(c.t0 + c.T) - Sq(c.t0)) + Sq(d[2]) * (Cube(c.t0 + c.T) - Cube(c.t0)))
Weights == {<<1, 1, 1>>, <<1, 3, 2>>, <<2, 1, 3>>}
Shapes == {<<<<1, 0>>, <<3, 0>>>>, <<<<2, 1>>, <<0, -1>>>>, <<<<-1, 2>>, <<4, -1>>>>}
Init == k \in { [net |-> n, al |-> w[1], be |-> w[2], ga |-> w[3], A |-> f[1], B |-> f[2], t0 |-> t, T |-> 2, d |-> dg, mid |-> (m = "mid"), jacobi |-> (m = "jacobi"), order |-> o] :
                n \in {"pair", "line"}, w \in Weights, f \in Shapes, t \in {0, 1}, dg \in {2, 3}, m \in {"plain", "mid", "jacobi"}, o \in {"default", "forward", "backward"} }
Next == UNCHANGED k
Spec == Init /\ [][Next]_k
Inv == Stationary(k) /\ Least(k)
Emit == PrintT(ToJson([c |-> k, y |-> Y(k), z |-> Z(k), den |-> Den(k), cost3 |-> Cost3(k)]))
=============================================================================
