-------------------------------- MODULE Steady --------------------------------
(* SystemModel.linearize, find_equilibrium and find_algebraic_variable on    *)
(* systems whose answers are integers.                                      *)
(*   nonlinear:  x1' = x1 x2 + 2 x1 u1 + 3 u2,  x2' = x2^2 - 4 u1 u2 + x1    *)
(*   steady:     x1' = (x1 - a) + 2 (x2 - b) + 3 (t - t0)                    *)
(*               x2' = (x2 - b) + (y - c) + (u - d)                          *)
(*               0   = 2 (y - c) + (x1 - a),     0 = additional: u - d       *)
(*   branch:     x' = y + u,  y^2 = 9: the algebraic equation has two         *)
(*               solutions and the guess of y picks one; a simulation through *)
(*               the problem takes y_0 when it is given and the guess of the  *)
(*               problem otherwise                                          *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Pts
VARIABLE req
JacX(x, u) == << <<x[2] + 2 * u[1], x[1]>>, <<1, 2 * x[2]>> >>
JacU(x, u) == << <<2 * x[1], 3>>, <<-4 * u[2], -4 * u[1]>> >>
Row(r, v) == r[1] * v[1] + r[2] * v[2]
LinOde(x, u, dx, du) == << Row(JacX(x, u)[1], dx) + Row(JacU(x, u)[1], du), Row(JacX(x, u)[2], dx) + Row(JacU(x, u)[2], du) >>
(* 0 = y1 - x1 - 2 u - 3 t - p,  0 = y2 - y1 + x2 - 5 th *)
Alg(x, u, t, p, th) == << x[1] + 2 * u + 3 * t + p, x[1] + 2 * u + 3 * t + p - x[2] + 5 * th >>
(* 0 stands for "not given" *)
Sign(via, y0, guess) == IF via = "model" \/ y0 # 0 THEN y0 ELSE guess
Reqs == { [k |-> "linearize", xb |-> a, ub |-> b, dx |-> c, du |-> d, ode |-> LinOde(a, b, c, d)] :
            a \in Pts, b \in Pts, c \in {<<1, 0>>, <<0, 1>>, <<0, 0>>}, d \in {<<1, 0>>, <<0, 1>>, <<0, 0>>} }
     \cup { [k |-> "equilibrium", x |-> a, y |-> <<b[1]>>, u |-> <<b[2]>>, t0 |-> t, guess |-> g] :
            a \in Pts, b \in Pts, t \in {0, 2}, g \in BOOLEAN }
     \cup { [k |-> "algebraic", x |-> a, u |-> <<b[1]>>, t |-> t, p |-> <<b[2]>>, th |-> <<a[1] + 1>>, full |-> f, y |-> Alg(a, b[1], t, IF f THEN b[2] ELSE 0, IF f THEN a[1] + 1 ELSE 0)] :
            a \in Pts, b \in Pts, t \in {0, 2}, f \in BOOLEAN }
     \cup { [k |-> "branch", via |-> v, x |-> a[1], u |-> b[1], y0 |-> s, guess |-> g, grid |-> <<1, 3>>,
              y |-> 3 * Sign(v, s, g), res |-> [j \in 1..3 |-> a[1] + (3 * Sign(v, s, g) + b[1]) * <<0, 1, 3>>[j]]] :
            a \in Pts, b \in Pts, v \in {"model", "problem"}, s \in {-1, 0, 1}, g \in {-1, 0, 1} }
Offered(r) == r.k = "branch" => /\ r.via = "model" => r.y0 # 0 /\ r.guess = 0
                                /\ r.y0 # 0 \/ r.guess # 0
Init == req \in {r \in Reqs : Offered(r)}
Next == UNCHANGED req
Spec == Init /\ [][Next]_req
Emit == PrintT(ToJson(req))
(* the linear model is the derivative: exact on a quadratic system up to the quadratic remainder *)
F(x, u) == << x[1] * x[2] + 2 * x[1] * u[1] + 3 * u[2], x[2] * x[2] - 4 * u[1] * u[2] + x[1] >>
Quad(dx, du) == << dx[1] * dx[2] + 2 * dx[1] * du[1], dx[2] * dx[2] - 4 * du[1] * du[2] >>
Plus(a, b) == << a[1] + b[1], a[2] + b[2] >>
Inv == req.k = "linearize" =>
  F(Plus(req.xb, req.dx), Plus(req.ub, req.du)) = Plus(F(req.xb, req.ub), Plus(req.ode, Quad(req.dx, req.du)))
=============================================================================
