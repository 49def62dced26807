----------------------------- MODULE MC_DaeSystem -----------------------------
EXTENDS DaeSystem, Json
CONSTANTS D
VARIABLES w, log
vars == <<w, log>>
Tau4(s, e) == IF s = "" THEN e ELSE Add(e, Scale(8, Sym(s)))
Sys(n, dae, par, tau) == LET t == "t" \o n ta == IF tau THEN "tau" \o n ELSE "" IN
  [x |-> SymSeq(<<n \o "x0", n \o "x1">>), y |-> IF dae THEN SymSeq(<<n \o "y">>) ELSE <<>>,
   p |-> IF par THEN SymSeq(<<n \o "p">>) ELSE <<>>,
   ode |-> << Tau4(ta, Rich(<<n \o "x0", n \o "x1", t>> \o (IF dae THEN <<n \o "y">> ELSE <<>>) \o (IF par THEN <<n \o "p">> ELSE <<>>), 2, 1)),
              Rich(<<n \o "x0", t>>, 3, 4) >>,
   alg |-> IF dae THEN << Tau4(ta, Rich(<<n \o "y", n \o "x1", t>>, 5, -3)) >> ELSE <<>>,
   t |-> t, tau |-> ta]
Inits == { [a |-> Sys("a", da, pa, ta), b |-> Sys("b", db, pb, tb)] :
           da \in BOOLEAN, pa \in BOOLEAN, ta \in BOOLEAN, db \in BOOLEAN, pb \in BOOLEAN, tb \in BOOLEAN }
Vars(s) == {v \in UNION {DOMAIN e : e \in RangeOf(s.x \o s.y \o s.p)} : v # "one"}
Asked == {"ax0", "ay", "bx1", "bp", "ap", "ta", "tb", "taua", "taub", "q"}
Ops == { [op |-> "join", m |-> m, from |-> n] : m \in {"a", "b"}, n \in {"a", "b"} }
  \cup UNION { { [op |-> "subst", m |-> m, vars |-> <<v>>, exprs |-> <<e>>] : v \in Vars(w[m]) , e \in {Sym("q")} } : m \in {"a", "b"} }
  \cup { [op |-> "tau", m |-> m, tk |-> tk, h |-> h] : m \in {"a", "b"}, tk \in {0, 3}, h \in {1, 4} }
Okay(op) == IF op.op # "join" THEN TRUE ELSE (op.m # op.from /\ Vars(w[op.m]) \cap Vars(w[op.from]) = {})
Init == w \in Inits /\ log = << [op |-> "init", w |-> w] >>
Do(op) == LET res == Apply(w, op) IN
   /\ Assert(Inv0(w, op, res), <<"StepInv", op>>)
   /\ w' = res.w /\ log' = Append(log, [op |-> op, out |-> res.out])
Next == TLCGet("level") <= D /\ \E op \in Ops : Okay(op) /\ Do(op)
Spec == Init /\ [][Next]_vars
View == w
Emit == PrintT(ToJson([h |-> log', post |-> [m \in DOMAIN w' |-> ProjS(w'[m], Asked)]]))
Inv == \A m \in DOMAIN w : Square(w[m])
=============================================================================
