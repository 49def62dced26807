------------------------------- MODULE Kalman -------------------------------
(* State estimation from noisy measurements.  For a model that is linear in   *)
(* its states,                                                                *)
(*   x1' = (a + d u + f p) x2 + b1 u + c p + g t      x2' = b2 u              *)
(*   y = k . x + k3 u + k0                                                    *)
(* sampled every Ts, every filter of the library has to give the Kalman       *)
(* estimate, which is computed here with fractions: the prediction is the     *)
(* solution of the equations, the correction weighs it against the            *)
(* measurement C [x y] + D u + noise by their covariances.                    *)
(*   ekf        the covariance of the predicted measurement has the process   *)
(*              noise in it: the estimate is the conditional expectation      *)
(*   ukf, pce   the measurement is predicted from the propagated points, that *)
(*              is without the process noise of this sample                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Cases,        \* filter, model, measurement, noise, start
          Controls, Readings(_),
          Pick(_),      \* all choices, or one of them
          MaxSteps
VARIABLES q, est, log
vars == <<q, est, log>>
Ts == 2

(* F(v), with v evaluated once *)
On(v, F(_)) == CHOOSE r \in { F(a) : a \in {v} } : TRUE
On2(v, w, F(_, _)) == CHOOSE r \in { F(a, b) : a \in {v}, b \in {w} } : TRUE
(* fractions <<n, d>>, d > 0, in lowest terms; <<0, 0>> where they get too big *)
Big == <<0, 0>>
Abs(a) == IF a < 0 THEN -a ELSE a
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Frac(n, d) == On2(IF d < 0 THEN -n ELSE n, Abs(d), LAMBDA a, b : On(Gcd(Abs(a), b), LAMBDA g :
                IF Abs(a \div g) > 30000 \/ b \div g > 30000 THEN Big ELSE <<a \div g, b \div g>>))
I(n) == <<n, 1>>
Zero == I(0)
IsBig(a) == a[2] = 0
Add(x, y) == On2(x, y, LAMBDA a, b : IF IsBig(a) \/ IsBig(b) THEN Big ELSE Frac(a[1] * b[2] + b[1] * a[2], a[2] * b[2]))
Mul(x, y) == On2(x, y, LAMBDA a, b : IF IsBig(a) \/ IsBig(b) THEN Big ELSE Frac(a[1] * b[1], a[2] * b[2]))
Neg(x) == On(x, LAMBDA a : <<-a[1], a[2]>>)
Inv(x) == On(x, LAMBDA a : IF IsBig(a) THEN Big ELSE Frac(a[2], a[1]))
Sub(a, b) == Add(a, Neg(b))

(* matrices: sequences of rows *)
RECURSIVE SumF(_)
SumF(s) == IF s = <<>> THEN Zero ELSE Add(Head(s), SumF(Tail(s)))
(* tuples, which TLC evaluates once *)
Tab(n, F(_)) == IF n = 0 THEN <<>> ELSE IF n = 1 THEN <<F(1)>> ELSE <<F(1), F(2)>>
Mat(n, k, F(_, _)) == Tab(n, LAMBDA i : Tab(k, LAMBDA j : F(i, j)))
Cols(A) == Len(A[1])
MMul(X, Y) == On2(X, Y, LAMBDA A, B : Mat(Len(A), Cols(B), LAMBDA i, j : SumF(Tab(Len(B), LAMBDA k : Mul(A[i][k], B[k][j])))))
MAdd(X, Y) == On2(X, Y, LAMBDA A, B : Mat(Len(A), Cols(A), LAMBDA i, j : Add(A[i][j], B[i][j])))
MNeg(X) == On(X, LAMBDA A : Mat(Len(A), Cols(A), LAMBDA i, j : Neg(A[i][j])))
MSub(A, B) == MAdd(A, MNeg(B))
T(X) == On(X, LAMBDA A : Mat(Cols(A), Len(A), LAMBDA i, j : A[j][i]))
Det(A) == IF Len(A) = 1 THEN A[1][1] ELSE Sub(Mul(A[1][1], A[2][2]), Mul(A[1][2], A[2][1]))
MInv(X) == On(X, LAMBDA A : On(Inv(Det(A)), LAMBDA r :
           IF Len(A) = 1 THEN <<<<r>>>>
           ELSE <<<<Mul(r, A[2][2]), Mul(r, Neg(A[1][2]))>>, <<Mul(r, Neg(A[2][1])), Mul(r, A[1][1])>>>>))
Ints(A) == Mat(Len(A), Cols(A), LAMBDA i, j : I(A[i][j]))
Id(n) == Mat(n, n, LAMBDA i, j : IF i = j THEN I(1) ELSE Zero)
Col(v) == Tab(Len(v), LAMBDA i : <<I(v[i])>>)
Exact(A) == \A i \in DOMAIN A : \A j \in DOMAIN A[i] : ~IsBig(A[i][j])

(* the model over one sample *)
Alpha(m, p, u) == m.a + m.d * u + m.f * p
Phi(m, p, u) == IF m.nx = 1 THEN Id(1) ELSE <<<<I(1), I(Ts * Alpha(m, p, u))>>, <<Zero, I(1)>>>>
(* what is added to Phi x, Ts = 2 *)
Drive(m, p, u, t) ==
  LET one == 2 * (m.b1 * u + m.c * p) + m.g * (2 * t + 2)
  IN IF m.nx = 1 THEN <<<<I(one)>>>> ELSE <<<<I(one + 2 * Alpha(m, p, u) * m.b2 * u)>>, <<I(2 * m.b2 * u)>>>>
KRow(m) == <<Tab(m.nx, LAMBDA i : I(m.k[i]))>>
YOff(m, u) == m.k[3] * u + m.k[4]
(* the measurement is Ceff x + Off *)
Ceff(m, z) == Mat(Len(z.C), m.nx, LAMBDA i, j : I(z.C[i][j] + (IF m.y THEN z.Cy[i] * m.k[j] ELSE 0)))
Off(m, z, u) == Tab(Len(z.C), LAMBDA i : <<I((IF m.y THEN z.Cy[i] * YOff(m, u) ELSE 0) + z.D[i] * u)>>)

(* Correct(e, ...): prediction xm with covariance P0 + Q, gain K, S the        *)
(* covariance of the innovation in                                            *)
Result(e, u, C, xm, P0, Pm, S, K, in) ==
  On2(MMul(K, in), KRow(q.m), LAMBDA dx, KR :
  [x |-> MAdd(xm, dx), P |-> MSub(Pm, MMul(MMul(K, S), T(K))), t |-> e.t + Ts, xm |-> xm, Pm |-> Pm,
   meas |-> MAdd(MMul(C, MAdd(xm, dx)), Off(q.m, q.z, u)),
   y |-> IF q.m.y THEN MAdd(MAdd(MMul(KR, xm), <<<<I(YOff(q.m, u))>>>>), MMul(KR, dx)) ELSE <<>>,
   Py |-> IF q.m.y THEN MSub(MMul(MMul(KR, P0), T(KR)), MMul(MMul(MMul(KR, K), S), T(MMul(KR, K)))) ELSE <<>>])
Correct(e, u, r, C, xm, P0, Pm, Pu) ==
  On(MAdd(MMul(MMul(C, Pu), T(C)), Ints(q.z.R)), LAMBDA S :
  On2(MMul(MMul(Pu, T(C)), MInv(S)), MSub(Col(r), MAdd(MMul(C, xm), Off(q.m, q.z, u))), LAMBDA K, in :
  Result(e, u, C, xm, P0, Pm, S, K, in)))
Step(e, u, r) ==
  On2(Phi(q.m, q.p, u), Ceff(q.m, q.z), LAMBDA F, C :
  On2(MAdd(MMul(F, e.x), Drive(q.m, q.p, u, e.t)), MMul(MMul(F, e.P), T(F)), LAMBDA xm, P0 :
  On(MAdd(P0, Ints(q.Q)), LAMBDA Pm :
  Correct(e, u, r, C, xm, P0, Pm, IF q.filter = "ekf" THEN Pm ELSE P0))))
Whole(e) == Exact(e.x) /\ Exact(e.P) /\ Exact(e.meas) /\ Exact(e.y) /\ Exact(e.Py) /\ Exact(e.Pm) /\ Exact(e.xm)

Init == /\ q \in Cases
        /\ est = [x |-> Col(q.x0), P |-> Ints(q.P0), t |-> q.t0]
        /\ log = <<>>
Estimate == /\ Len(log) < MaxSteps
            /\ \E u \in Pick(Controls), r \in Pick(Readings(q)) :
                 \E e \in {Step(est, u, r)} :
                    IF ~Whole(e) THEN UNCHANGED <<est, log>>
                    ELSE /\ est' = [x |-> e.x, P |-> e.P, t |-> e.t]
                         /\ log' = Append(log, [u |-> u, r |-> r, t |-> e.t, x |-> e.x, P |-> e.P, meas |-> e.meas, y |-> e.y, Py |-> e.Py,
                                                xm |-> e.xm, Pm |-> e.Pm])
            /\ UNCHANGED q
Next == Estimate
Spec == Init /\ [][Next]_vars

Pos(a) == IsBig(a) \/ a[1] >= 0
Psd(A) == (\A i \in DOMAIN A : Pos(A[i][i])) /\ Pos(Det(A))
Symmetric == \A i \in DOMAIN log : log[i].P = T(log[i].P)
Covariance == \A i \in DOMAIN log : Psd(log[i].P)
(* a measurement never makes the estimate less certain *)
Informs == \A i \in DOMAIN log : Psd(MSub(log[i].Pm, log[i].P))
(* the other form of the same estimate: information adds up *)
Fits(A, B) == ~Exact(A) \/ ~Exact(B) \/ A = B
Information == \A i \in DOMAIN log : (q.filter = "ekf" /\ Det(log[i].Pm) # Zero /\ q.z.R[1][1] # 0) =>
   On2(Ceff(q.m, q.z), MInv(Ints(q.z.R)), LAMBDA C, Ri :
   On2(MAdd(MInv(log[i].Pm), MMul(MMul(T(C), Ri), C)), MSub(Col(log[i].r), Off(q.m, q.z, log[i].u)), LAMBDA J, r :
   /\ Fits(MMul(log[i].P, J), Id(q.m.nx))
   /\ Fits(MMul(J, log[i].x), MAdd(MMul(MInv(log[i].Pm), log[i].xm), MMul(MMul(T(C), Ri), r)))))
Clock == est.t = q.t0 + Ts * Len(log)
Right == Symmetric /\ Covariance /\ Informs /\ Information /\ Clock
=============================================================================
