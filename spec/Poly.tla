------------------------------- MODULE Poly ---------------------------------
(* Polynomials in one variable with integer coefficients, as sequences of    *)
(* Len coefficients: p[i] is the coefficient of s^(i-1).                     *)
EXTENDS Integers, Sequences, TLC
PLen == 6
Zero == [i \in 1..PLen |-> 0]
Const(c) == [Zero EXCEPT ![1] = c]
Lin(a, b) == [Zero EXCEPT ![1] = a, ![2] = b]
PAdd(p, q) == [i \in 1..PLen |-> p[i] + q[i]]
PScale(c, p) == [i \in 1..PLen |-> c * p[i]]
RECURSIVE SumTo(_, _)
SumTo(F(_), n) == IF n = 0 THEN 0 ELSE F(n) + SumTo(F, n - 1)
PMul(p, q) == [i \in 1..PLen |-> LET T(j) == p[j] * q[i - j + 1] IN SumTo(T, i)]
PDer(p) == [i \in 1..PLen |-> IF i < PLen THEN i * p[i + 1] ELSE 0]
Exact(a, b) == IF a % b = 0 THEN a \div b ELSE Assert(FALSE, "not an integer polynomial")
PInt(p) == [i \in 1..PLen |-> IF i = 1 THEN 0 ELSE Exact(p[i - 1], i - 1)]
RECURSIVE Horner(_, _, _)
Horner(p, s, i) == IF i > PLen THEN 0 ELSE p[i] + s * Horner(p, s, i + 1)
PEval(p, s) == Horner(p, s, 1)
Deg(p) == IF \E i \in 2..PLen : p[i] # 0 THEN (CHOOSE i \in 2..PLen : p[i] # 0 /\ \A j \in (i + 1)..PLen : p[j] = 0) - 1 ELSE 0
=============================================================================
