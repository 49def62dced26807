------------------------------ MODULE LinExpr ------------------------------
(* Exact linear forms over named symbols.  An expression is a sparse        *)
(* function  symbol -> non-zero integer;  the symbol "one" is the constant. *)
(* They are closed under the substitutions yaocptool performs, so the       *)
(* meaning of every equation after any history of edits is a value of the   *)
(* specification, and is compared with the coefficients CasADi reports for  *)
(* the equation held by the real object.                                    *)
EXTENDS Integers, Sequences, FiniteSets

Coef(e, a) == IF a \in DOMAIN e THEN e[a] ELSE 0
Norm(f) == [a \in {b \in DOMAIN f : f[b] # 0} |-> f[a]]
Zero == [a \in {} |-> 0]
Sym(a) == [b \in {a} |-> 1]
Const(k) == IF k = 0 THEN Zero ELSE [b \in {"one"} |-> k]
Add(e, f) == Norm([a \in DOMAIN e \cup DOMAIN f |-> Coef(e, a) + Coef(f, a)])
Scale(k, e) == Norm([a \in DOMAIN e |-> k * e[a]])
Sub(e, f) == Add(e, Scale(-1, f))
RECURSIVE SumE(_)
SumE(s) == IF s = <<>> THEN Zero ELSE Add(Head(s), SumE(Tail(s)))

IndexIn(v, vs) == CHOOSE i \in 1..Len(vs) : vs[i] = v
InSeq(v, vs) == \E i \in 1..Len(vs) : vs[i] = v
RangeOf(vs) == {vs[i] : i \in 1..Len(vs)}

(* simultaneous substitution vs[i] := es[i] *)
RECURSIVE SubstAcc(_, _, _, _)
SubstAcc(e, vs, es, i) ==
  IF i > Len(vs) THEN [a \in DOMAIN e \ RangeOf(vs) |-> e[a]]
  ELSE Add(Scale(Coef(e, vs[i]), es[i]), SubstAcc(e, vs, es, i + 1))
Subst(e, vs, es) == SubstAcc(e, vs, es, 1)
SubstSeq(s, vs, es) == [i \in 1..Len(s) |-> Subst(s[i], vs, es)]
RenameAll(e, vs, ws) == Subst(e, vs, [i \in 1..Len(ws) |-> Sym(ws[i])])
SymSeq(vs) == [i \in 1..Len(vs) |-> Sym(vs[i])]

RemoveAll(s, R) == SelectSeq(s, LAMBDA v : v \notin R)
RECURSIVE RemoveIdxAcc(_, _, _)
RemoveIdxAcc(s, I, i) == IF i > Len(s) THEN <<>>
  ELSE (IF i \in I THEN <<>> ELSE <<s[i]>>) \o RemoveIdxAcc(s, I, i + 1)
RemoveIdx(s, I) == RemoveIdxAcc(s, I, 1)
PickIdx(s, I) == RemoveIdx(s, (1..Len(s)) \ I)
Distinct(s) == Cardinality(RangeOf(s)) = Len(s)

(* a * v1 + (a+1) * v2 + ... + k : mentions every symbol of vs with its own coefficient *)
Rich(vs, a, k) == SumE([i \in 1..Len(vs) |-> Scale(a + i - 1, Sym(vs[i]))] \o <<Const(k)>>)
=============================================================================
