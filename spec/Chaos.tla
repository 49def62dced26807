------------------------------- MODULE Chaos -------------------------------
(* Polynomial chaos.  x = mean + L z with z independent standard normal; a    *)
(* polynomial g(x) of degree at most the order of the expansion is the sum of *)
(* its coefficients times products of Hermite polynomials of z, and from the  *)
(* coefficients come the mean and the variance of g(x).  g grows by one term  *)
(* at a time.                                                                 *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC
CONSTANTS Cases,     \* n, order, mean, L, and how it is sampled
          Terms(_),  \* coefficient and exponents
          Pick(_), MaxTerms
VARIABLES q, g, out
vars == <<q, g, out>>

SumS(S, F(_)) == MapThenSumSet(F, S)
ProdN(n, F(_)) == IF n = 1 THEN F(1) ELSE IF n = 2 THEN F(1) * F(2) ELSE F(1) * F(2) * F(3)
Tab(n, F(_)) == IF n = 1 THEN <<F(1)>> ELSE IF n = 2 THEN <<F(1), F(2)>> ELSE <<F(1), F(2), F(3)>>
On(v, F(_)) == CHOOSE r \in { F(a) : a \in {v} } : TRUE
RECURSIVE Pow(_, _)
Pow(a, k) == IF k = 0 THEN 1 ELSE a * Pow(a, k - 1)
RECURSIVE Fact(_)
Fact(k) == IF k = 0 THEN 1 ELSE k * Fact(k - 1)

(* exponents of up to a total degree *)
Total(e) == IF Len(e) = 1 THEN e[1] ELSE IF Len(e) = 2 THEN e[1] + e[2] ELSE e[1] + e[2] + e[3]
Exps(n, d) == { e \in (IF n = 1 THEN { <<a>> : a \in 0..d } ELSE IF n = 2 THEN { <<a, b>> : a \in 0..d, b \in 0..d }
                       ELSE { <<a, b, c>> : a \in 0..d, b \in 0..d, c \in 0..d }) : Total(e) <= d }
(* polynomials: functions from exponents; those of the given degree *)
PAdd(a, b) == [e \in DOMAIN a |-> a[e] + b[e]]
Const(n, d, c) == [e \in Exps(n, d) |-> IF Total(e) = 0 THEN c ELSE 0]
Lower(e, i) == [e EXCEPT ![i] = @ - 1]
(* times mean + l . z, dropping nothing as long as the degree suffices *)
Times(a, m, l) == TLCEval([e \in DOMAIN a |-> m * a[e] + SumS({ i \in DOMAIN e : e[i] > 0 }, LAMBDA i : l[i] * a[Lower(e, i)])])
RECURSIVE Power(_, _, _, _)
Power(a, m, l, k) == IF k = 0 THEN a ELSE Power(Times(a, m, l), m, l, k - 1)
RECURSIVE Expand(_, _, _)
Expand(a, ex, i) == IF i > q.n THEN a ELSE Expand(Power(a, q.mean[i], q.L[i], ex[i]), ex, i + 1)
(* g as a polynomial of z *)
RECURSIVE InZ(_)
InZ(ts) == IF ts = <<>> THEN Const(q.n, q.order, 0) ELSE PAdd(InZ(Tail(ts)), Expand(Const(q.n, q.order, Head(ts).c), Head(ts).e, 1))

(* Hermite polynomials: z He(k) = He(k + 1) + k He(k - 1) *)
RECURSIVE He(_, _)
He(k, z) == IF k = 0 THEN 1 ELSE IF k = 1 THEN z ELSE z * He(k - 1, z) - (k - 1) * He(k - 2, z)
RECURSIVE InHe(_, _)       \* the coefficient of He(j) in z^k
InHe(k, j) == IF j < 0 \/ j > k THEN 0 ELSE IF k = 0 THEN 1 ELSE InHe(k - 1, j - 1) + (j + 1) * InHe(k - 1, j + 1)
Over(m, e) == \A i \in DOMAIN e : m[i] >= e[i]
Coef(a) == TLCEval([e \in DOMAIN a |-> SumS({ m \in DOMAIN a : a[m] # 0 /\ Over(m, e) }, LAMBDA m : a[m] * ProdN(q.n, LAMBDA i : InHe(m[i], e[i])))])
Psi(e, z) == ProdN(q.n, LAMBDA i : He(e[i], z[i]))
Norm(e) == ProdN(q.n, LAMBDA i : Fact(e[i]))
Mean(c) == c[Tab(q.n, LAMBDA i : 0)]
Variance(c) == SumS({ e \in DOMAIN c : Total(e) > 0 /\ c[e] # 0 }, LAMBDA e : c[e] * c[e] * Norm(e))

X(z) == Tab(q.n, LAMBDA i : q.mean[i] + SumS(1..q.n, LAMBDA j : q.L[i][j] * z[j]))
RECURSIVE At(_, _)
At(ts, x) == IF ts = <<>> THEN 0 ELSE Head(ts).c * ProdN(q.n, LAMBDA i : Pow(x[i], Head(ts).e[i])) + At(Tail(ts), x)
Points == IF q.n = 1 THEN { <<a>> : a \in -2..3 } ELSE IF q.n = 2 THEN {<<0, 0>>, <<1, -1>>, <<2, 1>>, <<-1, 2>>} ELSE {<<0, 0, 0>>, <<1, -1, 2>>, <<-1, 2, 1>>}

Result(ts) == On(Coef(InZ(ts)), LAMBDA c : [c |-> c, mean |-> Mean(c), var |-> Variance(c)])
Init == /\ q \in Cases
        /\ g = <<>>
        /\ out = [c |-> Const(q.n, q.order, 0), mean |-> 0, var |-> 0]
AddTerm == /\ Len(g) < MaxTerms
           /\ \E t \in Pick(Terms(q)) : /\ g' = Append(g, t)
                                        /\ \E r \in {Result(Append(g, t))} : out' = r
           /\ UNCHANGED q
Next == AddTerm
Spec == Init /\ [][Next]_vars

(* the expansion is g *)
Same == \A z \in Points : At(g, X(z)) = SumS({ e \in DOMAIN out.c : out.c[e] # 0 }, LAMBDA e : out.c[e] * Psi(e, z))
(* moments of the normal distribution: 0 for odd powers, (k - 1)!! for even *)
RECURSIVE Moment(_)
Moment(k) == IF k = 0 THEN 1 ELSE IF k = 1 THEN 0 ELSE (k - 1) * Moment(k - 2)
Expect(a) == SumS({ e \in DOMAIN a : a[e] # 0 }, LAMBDA e : a[e] * ProdN(q.n, LAMBDA i : Moment(e[i])))
Plus(a, b) == Tab(q.n, LAMBDA i : a[i] + b[i])
Expect2(a) == SumS({ e \in DOMAIN a : a[e] # 0 }, LAMBDA e : a[e] * SumS({ f \in DOMAIN a : a[f] # 0 }, LAMBDA f :
                a[f] * ProdN(q.n, LAMBDA i : Moment(e[i] + f[i]))))
Moments == On(TLCEval(InZ(g)), LAMBDA a : Expect(a) = out.mean /\ (q.order <= 4 => Expect2(a) = out.var + out.mean * out.mean))
Right == Same /\ Moments
=============================================================================
