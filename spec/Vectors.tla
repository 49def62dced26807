------------------------------ MODULE Vectors -------------------------------
(* The small pieces everything else is put together from                    *)
(* (yaocptool/util/util.py, SystemModel.include_variables /                 *)
(* get_variable(s)_by_name(s)): vectors of symbols, element-wise parameters *)
(* (thetas), polynomial pieces, the matrix exponential.                     *)
(*                                                                          *)
(* A vector is a sequence of symbols, a name a sequence of letters, a theta *)
(* a sequence of (element, column of numbers) pairs, a matrix a sequence of *)
(* rows.                                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

RangeOf(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
Where(P(_), n) == SelectSeq([i \in 1..n |-> i], P)

(* positions (from 0) of every entry of var in vec, entry by entry *)
Indices(var, vec) == Cat([k \in 1..Len(var) |-> [j \in 1..Len(Where(LAMBDA i : vec[i] = var[k], Len(vec))) |-> Where(LAMBDA i : vec[i] = var[k], Len(vec))[j] - 1]])
CanRemove(var, vec) == var # <<>> /\ RangeOf(var) \subseteq RangeOf(vec)
Remove(var, vec) == SelectSeq(vec, LAMBDA v : v \notin RangeOf(var))
(* a negative index counts from the end *)
InBounds(idx, n) == \A i \in 1..Len(idx) : idx[i] < n /\ idx[i] >= 0 - n
RemoveAt(idx, vec) == LET n == Len(vec) IN LET out == {IF idx[i] < 0 THEN idx[i] + n + 1 ELSE idx[i] + 1 : i \in 1..Len(idx)} IN
  [k \in 1..Len(Where(LAMBDA i : i \notin out, n)) |-> vec[Where(LAMBDA i : i \notin out, n)[k]]]

(* a pattern: what a name has to start with ("." is any letter) and whether it has to end there *)
Fits(p, name) == Len(p.s) <= Len(name) /\ (\A i \in 1..Len(p.s) : p.s[i] = "." \/ p.s[i] = name[i]) /\ (p.end => Len(p.s) = Len(name))
Find(ps, names) == Cat([k \in 1..Len(ps) |-> Where(LAMBDA i : Fits(ps[k], names[i]), Len(names))])

(* thetas *)
Keys(th) == {th[i].k : i \in 1..Len(th)}
At(th, k) == th[CHOOSE i \in 1..Len(th) : th[i].k = k].v
CanJoin(ts) == \A i \in 1..Len(ts), j \in 1..Len(ts) : ts[i] = <<>> \/ ts[j] = <<>> \/ Keys(ts[i]) = Keys(ts[j])
Join(ts) == LET full == SelectSeq(ts, LAMBDA t : t # <<>>) IN
  IF full = <<>> THEN <<>> ELSE [i \in 1..Len(full[1]) |-> [k |-> full[1][i].k, v |-> Cat([j \in 1..Len(full) |-> At(full[j], full[1][i].k)])]]
(* c: one number, or a number for every entry *)
Constant(c, n, elements) == [i \in 1..elements |-> [k |-> i - 1, v |-> IF Len(c) = 1 THEN [j \in 1..n |-> c[1]] ELSE c]]

(* the polynomial c[1] + c[2] tau + ... at tau = q/4, times 4^3 *)
Pow4(n) == CASE n = 0 -> 1 [] n = 1 -> 4 [] n = 2 -> 16 [] OTHER -> 64
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
RECURSIVE SumTo(_, _)
SumTo(f(_), n) == IF n = 0 THEN 0 ELSE f(n) + SumTo(f, n - 1)
PolyAt(c, q) == SumTo(LAMBDA i : c[i] * Pow(q, i - 1) * Pow4(4 - i), Len(c))

(* matrices: 6 e^A for A^4 = 0 is 6 I + 6 A + 3 A^2 + A^3 *)
Mul(A, B) == [i \in 1..Len(A) |-> [j \in 1..Len(A) |-> SumTo(LAMBDA k : A[i][k] * B[k][j], Len(A))]]
Six(A) == LET A2 == Mul(A, A) IN LET A3 == Mul(A2, A) IN
  [i \in 1..Len(A) |-> [j \in 1..Len(A) |-> (IF i = j THEN 6 ELSE 0) + 6 * A[i][j] + 3 * A2[i][j] + A3[i][j]]]
Nilpotent(A) == LET Z == [i \in 1..Len(A) |-> [j \in 1..Len(A) |-> 0]] IN Mul(Mul(A, A), Mul(A, A)) = Z
=============================================================================
