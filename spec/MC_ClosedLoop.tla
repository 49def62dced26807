---------------------------- MODULE MC_ClosedLoop ----------------------------
EXTENDS ClosedLoop, Json
CONSTANTS Len_, MaxLen
Eye == <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>
Cs == {Eye, <<<<1, 0, 0>>>>, <<<<1, 1, 0>>, <<0, 2, 1>>>>, <<<<0, 0, 1>>, <<1, 0, 0>>, <<0, 1, 0>>, <<1, -1, 2>>>>}
Sss == {<<4>>, <<2, 4>>, <<1, 4>>, <<1, 2, 3, 4>>}
Means == {<<>>, <<<<1, 2>>>>, <<<<2, 1>>, <<1, 2>>>>}
Covs == {<<>>, <<<<4, 1>>>>, <<<<2, 2>>>>, <<<<3, 1>>>>}
The(S) == CHOOSE z \in Pick(S) : TRUE
Configs == { [c |-> The(Cs), ss |-> The(Sss), noise |-> The(BOOLEAN), est |-> The({"ideal", "stub"}), cost |-> The(BOOLEAN), rearr |-> The(BOOLEAN), hook |-> The(BOOLEAN),
              mean |-> The(Means), cov |-> The(Covs), dc |-> The({1, 2}), n |-> The({1, 2, 3}), sch |-> The({"coll", "ms"}), pp |-> The({0, 2}),
              x0 |-> The({<<1, 2>>, <<-3, 0>>}), u0 |-> The({<<0, 0>>, <<2, -1>>}), y0 |-> 4, t0 |-> The({0, 5}), p |-> <<7, 8>>, th |-> The(BOOLEAN), id |-> i] : i \in 1..Len_ * 100 }
Fix(c) == [c EXCEPT !.c = IF c.est = "ideal" THEN Eye ELSE @, !.cov = IF c.est = "ideal" THEN <<>> ELSE @, !.hook = IF c.dc > 1 THEN FALSE ELSE @]
Start(c) == /\ q = c /\ pl = Plant0(c) /\ mpc = Mpc0 /\ log = <<>>
SmallConfigs == { [c |-> IF e = "ideal" THEN Eye ELSE <<<<1, 1, 0>>>>, ss |-> ss, noise |-> nz, est |-> e, cost |-> TRUE, rearr |-> FALSE, hook |-> FALSE, mean |-> <<<<1, 2>>>>,
              cov |-> <<>>, dc |-> d, n |-> 2, sch |-> "coll", pp |-> 2, x0 |-> <<1, 2>>, u0 |-> <<2, -1>>, y0 |-> 4, t0 |-> 5, p |-> <<7, 8>>, th |-> FALSE, id |-> 0] :
   e \in {"ideal", "stub"}, ss \in {<<4>>, <<1, 4>>}, nz \in BOOLEAN, d \in {1, 2} }
Init == IF Len_ > 0 THEN \E c \in Configs : Start(Fix(c)) ELSE \E c \in SmallConfigs : Start(c)

Num == -2..3
Vec(a, b) == <<a, b>>
Answer(tag, a, b, c, d) == [tag |-> tag, a |-> <<a, b>>, b |-> IF q.dc = 1 THEN <<0, 0>> ELSE <<c, d>>]
RECURSIVE Els(_, _, _, _, _, _)
Els(n, tag, a, b, c, d) == IF n = 0 THEN <<>> ELSE <<Answer(tag, a, b, c, d)>> \o Els(n - 1, tag + 1, b, a + 1, d, -c)
Answers(n, a, b, c, d) == [ k \in 1..n |-> Els(q.n, 1 + (mpc.solves + k - 1) * q.n, a + k - 1, b - k, c, d + k) ]
Next == \E w \in Pick(1..9), a \in Pick(Num), b \in Pick(Num), c \in Pick(Num), d \in Pick(Num), nz \in Pick(IF q.noise THEN {1, 4} ELSE {0}), n \in Pick(1..3),
           f \in Pick({"DM", "list"}), x \in Pick(BOOLEAN) :
   CASE w \in 1..2 -> DoSet(<<a, b>>, f, nz)
     [] w = 3 -> IF x THEN DoBadSet(<<a, b, c>>) ELSE DoBadSet(<<a>>)
     [] w = 4 -> DoFun(<<a, b>>, <<c, d>>, nz)
     [] w \in 5..7 -> DoRun(Answers(n, a, b, c, d), nz, n = 3 /\ x)
     [] OTHER -> DoFixed(<<a, b>>, n, f, nz, x)
Few == {0, 1}
NextSmall == \E a \in Few, b \in Few : \/ DoSet(<<a, b>>, "DM", a) \/ DoFun(<<a, b>>, <<b, 1>>, b) \/ DoRun(Answers(2, a, b, 1, 0), b, FALSE) \/ DoFixed(<<a, b>>, 2, "DM", 0, TRUE) \/ DoBadSet(<<a>>)
Spec == Init /\ [][IF Len_ > 0 THEN Next ELSE NextSmall]_vars
Every(S) == S
One(S) == {RandomElement(S)}
Depth == TLCGet("level") <= MaxLen
View == <<q, pl, mpc>>
Emit == TLCGet("level") = Len_ => PrintT(ToJson([q |-> q, log |-> log, pl |-> pl, mpc |-> mpc]))
=============================================================================
