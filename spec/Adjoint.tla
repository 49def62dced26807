------------------------------ MODULE Adjoint -------------------------------
(* Necessary conditions of an optimal control problem (Pontryagin), for      *)
(* polynomial problems with integer coefficients:                            *)
(*   H = L + lamb'f + nu'g,   lamb' = -dH/dx,   dH/dy = 0,   dH/du = 0       *)
(*   lamb(t_f) = dV/dx + (dh/dx)' eta                                        *)
(* A monomial is a function symbol -> exponent, a polynomial a function      *)
(* monomial -> non-zero integer.                                             *)
EXTENDS Integers, Sequences, FiniteSets
Coef(p, m) == IF m \in DOMAIN p THEN p[m] ELSE 0
Nz(p) == [m \in {k \in DOMAIN p : p[k] # 0} |-> p[m]]
P0 == [m \in {} |-> 0]
PAdd(p, q) == Nz([m \in DOMAIN p \cup DOMAIN q |-> Coef(p, m) + Coef(q, m)])
PScale(c, p) == Nz([m \in DOMAIN p |-> c * p[m]])
RECURSIVE PSum(_)
PSum(s) == IF s = <<>> THEN P0 ELSE PAdd(Head(s), PSum(Tail(s)))
Exp(m, v) == IF v \in DOMAIN m THEN m[v] ELSE 0
Times(m, v) == [a \in DOMAIN m \cup {v} |-> Exp(m, a) + (IF a = v THEN 1 ELSE 0)]
Over(m, v) == [a \in {b \in DOMAIN m : b # v \/ m[b] > 1} |-> IF a = v THEN m[a] - 1 ELSE m[a]]
MulSym(p, v) == [m \in {Times(k, v) : k \in DOMAIN p} |-> p[Over(m, v)]]
Der(p, v) == LET D == {m \in DOMAIN p : Exp(m, v) > 0} IN [m \in {Over(k, v) : k \in D} |-> Exp(Times(m, v), v) * p[Times(m, v)]]
At0(p, vs) == [m \in {k \in DOMAIN p : DOMAIN k \cap vs = {}} |-> p[m]]
SymP(v) == [m \in {[a \in {v} |-> 1]} |-> 1]
One == [a \in {} |-> 0]
Range(s) == {s[i] : i \in DOMAIN s}

Lam(q) == [i \in DOMAIN q.x |-> "lamb_" \o q.x[i]]
Nu(q) == [i \in DOMAIN q.y |-> "nu_" \o q.y[i]]
Eta(q) == [i \in DOMAIN q.hf |-> <<"eta_1", "eta_2", "eta_3">>[i]]
Ham(q) == PSum(<<q.L>> \o [i \in DOMAIN q.x |-> MulSym(q.f[i], Lam(q)[i])] \o [i \in DOMAIN q.y |-> MulSym(q.g[i], Nu(q)[i])])
AdjOde(q) == [i \in DOMAIN q.x |-> PScale(-1, Der(Ham(q), q.x[i]))]
AdjAlg(q) == [i \in DOMAIN q.y |-> Der(Ham(q), q.y[i])]
Transversal(q) == [i \in DOMAIN q.x |-> PSum(<<SymP(Lam(q)[i]), PScale(-1, Der(q.V, q.x[i]))>>
                      \o [j \in DOMAIN q.hf |-> PScale(-1, MulSym(Der(q.hf[j], q.x[i]), Eta(q)[j]))])]
(* the control that makes H stationary: Huu u = -Hu at u = 0, by Cramer's rule; Huu is constant *)
Huu(q) == [i \in DOMAIN q.u |-> [j \in DOMAIN q.u |-> Coef(Der(Der(q.L, q.u[i]), q.u[j]), One)]]
Hu0(q) == [i \in DOMAIN q.u |-> At0(Der(Ham(q), q.u[i]), Range(q.u))]
Det(q) == LET h == Huu(q) IN IF Len(q.u) = 1 THEN h[1][1] ELSE h[1][1] * h[2][2] - h[1][2] * h[2][1]
Num(q) == LET h == Huu(q) r == Hu0(q) IN
  IF Len(q.u) = 1 THEN <<PScale(-1, r[1])>>
  ELSE <<PAdd(PScale(-h[2][2], r[1]), PScale(h[1][2], r[2])), PAdd(PScale(h[2][1], r[1]), PScale(-h[1][1], r[2]))>>
(* where H does not depend on u quadratically at all there is no such control *)
Singular(q) == \A i, j \in DOMAIN q.u : Huu(q)[i][j] = 0

VARIABLES q, phase
vars == <<q, phase>>
(* stationarity holds for the law (an identity between polynomials) *)
Consistent == phase = "done" /\ ~Singular(q) =>
  \A i \in DOMAIN q.u : PAdd(PSum([j \in DOMAIN q.u |-> PScale(Huu(q)[i][j], Num(q)[j])]), PScale(Det(q), Hu0(q)[i])) = P0
Convex == phase = "done" /\ ~Singular(q) => Det(q) > 0 /\ Huu(q)[1][1] > 0
=============================================================================
