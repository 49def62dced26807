----------------------------- MODULE MC_OcpRun ------------------------------
EXTENDS OcpRun, Json
VARIABLE c
Some(v) == [has |-> TRUE, v |-> v]
Opt(S) == {[has |-> FALSE, v |-> CHOOSE v \in S : TRUE]} \cup {Some(v) : v \in S}
Sims == { [k |-> "sim", o |-> o, a |-> a] :
  o \in { [fam |-> f, t0 |-> t0, tf |-> t0 + 4, x0 |-> <<12, -6>>, u |-> <<1, -2>>, p |-> <<2, -1>>, th |-> <<1, 2>>] : f \in {"ode", "dae"}, t0 \in {0, 2} },
  a \in { [t0 |-> t0, tf |-> tf, x0 |-> x0, u |-> u, n |-> n, grid |-> g] :
     t0 \in Opt({1, 0}), tf \in Opt({9, 7}), x0 \in Opt({<<6, 18>>}), u \in Opt({<<3, 1>>}), n \in {0, 1, 2, 4}, g \in {<<>>, <<10, 12>>} } }
Mat(S) == {<<>>} \cup S
A == <<<<2, 1>>, <<1, 3>>>>
B == <<<<1, -1>>, <<4, 2>>>>
Quads == { [k |-> "quad", obj |-> [Q |-> q, R |-> r, Qv |-> qv, Rv |-> rv, xref |-> xr.v, uref |-> ur.v], hasx |-> xr.has, hasu |-> ur.has,
            how |-> how, x |-> <<3, -2>>, u |-> <<4, 1>>] :
            q \in Mat({A, B}), r \in Mat({A}), qv \in Mat({B}), rv \in Mat({A}),
            xr \in {[has |-> FALSE, v |-> <<0, 0>>], Some(<<1, 5>>)}, ur \in {[has |-> FALSE, v |-> <<0, 0>>], Some(<<-2, 1>>)}, how \in {"obj", "method"} }
Good == { s \in Sims : Divides(s.o, s.a) /\ Own(s.a.t0, s.o.t0) < Own(s.a.tf, s.o.tf) /\ (s.a.grid # <<>> => (s.a.n = 0 /\ ~s.a.tf.has)) }
Init == c \in Good \cup Quads
Next == FALSE /\ c' = c
Spec == Init /\ [][Next]_c
Answer == IF c.k = "sim" THEN [c |-> c, res |-> LET r == Resolve(c.o, c.a) IN Result(r, Run(r))]
          ELSE [c |-> c, L |-> LCost(c.obj, c.x, c.u), V |-> VCost(c.obj, c.x)]
Emit == PrintT(ToJson(Answer))
Inv == c.k = "quad" => ZeroAtReference(c.obj)
=============================================================================
