------------------------------ MODULE Messages ------------------------------
(* CasADi expressions travelling between processes                          *)
(* (yaocptool/util/serializer.py): messages are written and read in any     *)
(* order, any number of times, by several processes.                        *)
(*                                                                          *)
(* A message is a sequence of entries: an expression (a linear form over    *)
(* symbols), or a whole message of its own, written while the outer one is  *)
(* being written.  msgs: the written messages; seen: what the last reading  *)
(* gave.  Reading makes new symbols, but what is said about them is what    *)
(* was written: the same name, and the same part in every expression.       *)
EXTENDS LinExpr, TLC, Json

E(e) == [k |-> "e", e |-> e, m |-> <<>>]
Inner(m) == [k |-> "m", e |-> Zero, m |-> m]
Exprs(m) == SelectSeq(m, LAMBDA t : t.k = "e")
Symbols(m) == UNION {DOMAIN Exprs(m)[i].e : i \in 1..Len(Exprs(m))} \ {"one"}
(* two different symbols may have the same name *)
NameOf(s) == IF s \in {"p1", "p2"} THEN "p" ELSE s
Row(m, s) == [i \in 1..Len(Exprs(m)) |-> Coef(Exprs(m)[i].e, s)]
(* what can be said about a message without pointing at particular symbols: a bag of rows *)
RECURSIVE SetToSeq_(_)
SetToSeq_(S) == IF S = {} THEN <<>> ELSE LET s == CHOOSE s \in S : TRUE IN <<s>> \o SetToSeq_(S \ {s})
(* the form: separate expressions; a column of them; a matrix with them on its diagonal and nothing elsewhere *)
Shape(m, f) == IF f \in {"list", "dict"} \/ m = <<>> \/ Len(Exprs(m)) < Len(m) THEN <<>>
               ELSE IF f = "vec" THEN <<Len(m), 1, Len(m)>> ELSE <<Len(m), Len(m), Len(m)>>
RECURSIVE View_(_, _)
View_(m, f) == LET ss == SetToSeq_(Symbols(m)) IN
  [syms |-> [i \in 1..Len(ss) |-> [name |-> NameOf(ss[i]), row |-> Row(m, ss[i])]],
   consts |-> [i \in 1..Len(Exprs(m)) |-> Coef(Exprs(m)[i].e, "one")],
   inner |-> [i \in 1..Len(SelectSeq(m, LAMBDA t : t.k = "m")) |-> View_(SelectSeq(m, LAMBDA t : t.k = "m")[i].m, f)],
   shape |-> Shape(m, f)]
=============================================================================
