----------------------------- MODULE MC_Adjoint -----------------------------
EXTENDS Adjoint, TLC, Json
CONSTANTS Sizes, Pick(_)
Rnd(S) == {RandomElement(S)}
Every(S) == S
NONE == 1000000
M1(a) == [v \in {a} |-> 1]
M2(a, b) == IF a = b THEN [v \in {a} |-> 2] ELSE [v \in {a, b} |-> 1]
Coefs(seed) == LET c == ((seed * 7) % 11) - 5 IN IF c = 0 THEN 6 ELSE c
(* q grows field by field *)
Xs(n) == SubSeq(<<"x1", "x2">>, 1, n)
Ys(n) == SubSeq(<<"y1", "y2">>, 1, n)
Us(n) == SubSeq(<<"u1", "u2">>, 1, n)
Lin(r) == {M1(v) : v \in Range(r.x) \cup Range(r.y) \cup Range(r.u) \cup {"p", "h", "t"}}
Bil(r) == UNION {{M2(a, b) : b \in Range(r.x) \cup Range(r.y) \cup Range(r.u) \cup {"p", "h", "t"}} : a \in Range(r.x) \cup Range(r.y)}
NoUU(r) == Lin(r) \cup Bil(r) \cup {M2(u, s) : u \in Range(r.u), s \in {"p", "h", "t"}}
Key(m) == LET n == [v \in {"x1", "x2", "y1", "y2", "u1", "u2", "p", "h", "t"} |-> IF v \in DOMAIN m THEN m[v] ELSE 0]
           IN n["x1"] + 3 * n["x2"] + 5 * n["y1"] + 8 * n["y2"] + 13 * n["u1"] + 17 * n["u2"] + 23 * n["p"] + 29 * n["h"] + 31 * n["t"]
Mk(S, s) == [m \in S |-> Coefs(Key(m) + s)]
Init == /\ phase = "f1" /\ q \in {[x |-> Xs(s[1]), y |-> Ys(s[2]), u |-> Us(s[3]), nh |-> s[4], f |-> <<>>, g |-> <<>>, hf |-> <<>>, L |-> P0, V |-> P0, cost |-> FALSE,
           ub |-> [i \in 1..s[3] |-> <<-NONE, NONE>>], xb |-> FALSE] : s \in Sizes}
NextPhase == CASE Len(q'.f) < Len(q.x) -> "f1" [] Len(q'.g) < Len(q.y) -> "g1" [] OTHER -> "L"
Small(S) == {T \in SUBSET S : Cardinality(T) <= 2}
F == phase = "f1" /\ \E a \in Pick(Lin(q)), b \in Pick(NoUU(q)), c \in Pick(NoUU(q)) :
       /\ q' = [q EXCEPT !.f = Append(@, Mk({a, b, c}, Len(@)))] /\ phase' = NextPhase
(* equations that determine their algebraic variable *)
G == phase = "g1" /\ \E b \in Pick(NoUU(q)), c \in Pick(Lin(q)) :
       /\ q' = [q EXCEPT !.g = Append(@, Mk({M1(q.y[Len(q.g) + 1]), b, c}, 3 + Len(@)))] /\ phase' = NextPhase
L == phase = "L" /\ \E a \in Pick(NoUU(q)), b \in Pick(NoUU(q)), c \in Pick(NoUU(q)), cross \in Pick({0, 0, 1, -1}), bnd \in Pick({"free", "box", "low", "high", "positive", "negative", "first", "last"}), sing \in Pick({FALSE} \cup (IF Len(q.u) = 1 THEN {TRUE} ELSE {})) :
       LET base == Mk({a, b, c}, 9)
           quad == [i \in DOMAIN q.u |-> PScale(IF sing THEN 0 ELSE 1 + i, [m \in {M2(q.u[i], q.u[i])} |-> 1])]
           mix == IF Len(q.u) = 2 /\ cross # 0 THEN [m \in {M2("u1", "u2")} |-> cross] ELSE P0
           free == bnd = "free" \/ (Len(q.u) = 2 /\ cross # 0)
       IN /\ q' = [q EXCEPT !.L = PSum(<<base, mix>> \o quad),
                            !.ub = [i \in DOMAIN q.u |-> IF free THEN <<-NONE, NONE>> ELSE CASE bnd = "box" -> <<-i, 2>> [] bnd = "low" -> <<i - 1, NONE>>
                               [] bnd = "positive" -> <<i, i + 2>> [] bnd = "negative" -> <<-3, -i>> [] bnd = "first" -> IF i = 1 THEN <<-1, 1>> ELSE <<-NONE, NONE>>
                               [] bnd = "last" -> IF i = Len(q.u) THEN <<1, NONE>> ELSE <<-NONE, NONE>> [] OTHER -> <<-NONE, 1 - i>>]]
          /\ phase' = "V"
XMon(r) == {M2(v, "p") : v \in Range(r.x)} \cup {M1(v) : v \in Range(r.x)} \cup UNION {{M2(a, b) : b \in Range(r.x)} : a \in Range(r.x)}
V == phase = "V" /\ \E a \in Pick(XMon(q)), b \in Pick(XMon(q)), z \in Pick({TRUE, FALSE}), c \in Pick(BOOLEAN), xb \in Pick(BOOLEAN) :
       /\ q' = [q EXCEPT !.V = IF z THEN Mk({a, b}, 4) ELSE P0, !.cost = c, !.xb = xb] /\ phase' = IF q.nh > 0 THEN "h" ELSE "done"
Hf == phase = "h" /\ \E a \in Pick(XMon(q)), b \in Pick(XMon(q)), k \in Pick(1..5) :
       /\ q' = [q EXCEPT !.hf = Append(@, PAdd(Mk({a, b}, 2 + Len(@)), [m \in {One} |-> k]))]
       /\ phase' = IF Len(q'.hf) < q.nh THEN "h" ELSE "done"
Next == F \/ G \/ L \/ V \/ Hf
Terms(p) == {[m |-> m, c |-> p[m]] : m \in DOMAIN p}
TermsSeq(s) == [i \in DOMAIN s |-> Terms(s[i])]
Emit == phase = "done" => PrintT(ToJson([x |-> q.x, y |-> q.y, u |-> q.u, f |-> TermsSeq(q.f), g |-> TermsSeq(q.g), hf |-> TermsSeq(q.hf), L |-> Terms(q.L), V |-> Terms(q.V),
   cost |-> q.cost, xb |-> q.xb, ub |-> q.ub, singular |-> Singular(q), lam |-> Lam(q), nu |-> Nu(q), eta |-> Eta(q), H |-> Terms(Ham(q)), aode |-> TermsSeq(AdjOde(q)), aalg |-> TermsSeq(AdjAlg(q)),
   tv |-> TermsSeq(Transversal(q)), num |-> TermsSeq(Num(q)), det |-> Det(q)]))
Inv == Consistent /\ Convex
=============================================================================
