------------------------------ MODULE Extremal ------------------------------
(* Exact extremals of problems whose necessary conditions have piecewise      *)
(* polynomial solutions:                                                      *)
(*   order 1:  x1' = b u + e h                                                *)
(*   order 2:  x1' = x2 (+ y, when the algebraic variable is in the chain)    *)
(*             x2' = b u + e h                                                *)
(*   algebraic (optional)  y = al x1 + be u + ga p + de h      ("cost")       *)
(*                         y = al x2 + ga p                    ("chain")      *)
(*   cost  V = v1 x1 + v2 x2 + m p x1,                                        *)
(*         L = q1 x1 + q2 x2 + ka t x1 + w y + u^2/2 + (s p + k h) u          *)
(* final constraints x_i(t_f) = xf_i for i in fix; umin <= u <= umax.         *)
(* The multiplier of a final constraint is chosen, its xf_i follows.          *)
(* Data that is measured (costs, values) is scaled by SC; al, be, ga, de, b,  *)
(* e, s, k, m are plain integers. Each element has its own theta h.           *)
EXTENDS Poly
CONSTANT SC
INF == 1000000
T0(q, k) == q.t0 + (k - 1) * q.dt
InCost(q) == q.alg = "cost"
InChain(q) == q.alg = "chain"
(* final values of the adjoint states *)
LamEnd(q, i) == IF i = 1 THEN q.v1 + q.m * q.p + q.eta[1] ELSE q.v2 + q.eta[2]
(* a polynomial on the element with derivative d that ends at v *)
Back(q, d, v) == LET p == PInt(d) IN PAdd(p, Const(v - PEval(p, q.dt)))
Forw(d, v) == PAdd(PInt(d), Const(v))
DLam1(q, k) == PAdd(Const(-(q.q1 + (IF InCost(q) THEN q.al * q.w ELSE 0) + q.ka * T0(q, k))), Lin(0, -q.ka))
RECURSIVE Lam1(_, _)
Lam1(q, k) == Back(q, DLam1(q, k), IF k = q.n THEN LamEnd(q, 1) ELSE PEval(Lam1(q, k + 1), 0))
DLam2(q, k) == PAdd(Const(-q.q2 - (IF InChain(q) THEN q.al * q.w ELSE 0)), PScale(IF InChain(q) THEN -(1 + q.al) ELSE -1, Lam1(q, k)))
RECURSIVE Lam2(_, _)
Lam2(q, k) == Back(q, DLam2(q, k), IF k = q.n THEN LamEnd(q, 2) ELSE PEval(Lam2(q, k + 1), 0))
LamU(q, k) == IF q.order = 1 THEN Lam1(q, k) ELSE Lam2(q, k)
(* the unconstrained minimiser of H *)
UFree(q, k) == PAdd(PScale(-q.b, LamU(q, k)), Const(-(q.s * q.p + q.k * q.h[k]) - (IF InCost(q) THEN q.be * q.w ELSE 0)))
Ends(q, p) == {PEval(p, 0), PEval(p, q.dt)}
Inside(q, k) == \A v \in Ends(q, UFree(q, k)) : q.umin <= v /\ v <= q.umax
Above(q, k) == \A v \in Ends(q, UFree(q, k)) : v >= q.umax
Below(q, k) == \A v \in Ends(q, UFree(q, k)) : v <= q.umin
Free(q) == q.umin = -INF /\ q.umax = INF
(* monotone on every element and not crossing a bound inside one: otherwise the solution is not a polynomial there *)
Decided(q) == Free(q) \/ \A k \in 1..q.n : Deg(UFree(q, k)) <= 1 /\ (Inside(q, k) \/ Above(q, k) \/ Below(q, k))
U(q, k) == IF Free(q) \/ Inside(q, k) THEN UFree(q, k) ELSE IF Above(q, k) THEN Const(q.umax) ELSE Const(q.umin)
DLast(q, k) == PAdd(PScale(q.b, U(q, k)), Const(q.e * q.h[k]))
RECURSIVE X2(_, _)
X2(q, k) == Forw(DLast(q, k), IF k = 1 THEN q.x0[2] ELSE PEval(X2(q, k - 1), q.dt))
DX1(q, k) == IF q.order = 1 THEN DLast(q, k) ELSE
   IF InChain(q) THEN PAdd(PScale(1 + q.al, X2(q, k)), Const(q.ga * q.p)) ELSE X2(q, k)
RECURSIVE X1(_, _)
X1(q, k) == Forw(DX1(q, k), IF k = 1 THEN q.x0[1] ELSE PEval(X1(q, k - 1), q.dt))
Y(q, k) == IF InChain(q) THEN PAdd(PScale(q.al, X2(q, k)), Const(q.ga * q.p))
   ELSE PAdd(PAdd(PScale(q.al, X1(q, k)), PScale(q.be, U(q, k))), Const(q.ga * q.p + q.de * q.h[k]))
(* g = y - (...) : dH/dy = 0 *)
Nu(q, k) == IF InChain(q) THEN PAdd(Const(-q.w), PScale(-1, Lam1(q, k))) ELSE Const(-q.w)
Xf(q, i) == IF i = 1 THEN PEval(X1(q, q.n), q.dt) ELSE PEval(X2(q, q.n), q.dt)
Sol(q) == [k \in 1..q.n |-> [x1 |-> X1(q, k), l1 |-> Lam1(q, k), x2 |-> IF q.order = 2 THEN X2(q, k) ELSE Zero, l2 |-> IF q.order = 2 THEN Lam2(q, k) ELSE Zero,
                             u |-> U(q, k), y |-> IF q.alg = "no" THEN Zero ELSE Y(q, k), nu |-> IF q.alg = "no" THEN Zero ELSE Nu(q, k)]]
VARIABLE prob
(* every weak variation costs: H is at its minimum over the admissible controls at both ends of each element *)
(* twice the change of H from v to v + d *)
DH(q, k, s, v, d) == d * (2 * (v - PEval(UFree(q, k), s)) + d)
Minimal == \A k \in 1..prob.n : \A s \in {0, prob.dt} :
   LET v == PEval(U(prob, k), s) IN \A d \in {-SC, -1, 1, SC} : (prob.umin <= v + d /\ v + d <= prob.umax) => DH(prob, k, s, v, d) > 0
Continuous == \A k \in 2..prob.n : /\ PEval(X1(prob, k), 0) = PEval(X1(prob, k - 1), prob.dt) /\ PEval(Lam1(prob, k), 0) = PEval(Lam1(prob, k - 1), prob.dt)
=============================================================================
