---------------------------- MODULE Distributed -----------------------------
(* The distributed solution of a network of optimal control problems.        *)
(*                                                                           *)
(* Every connection u = y of the network is relaxed at both of its ends: the *)
(* node that has u, and the node that has y, each keep a multiplier of their *)
(* own for the residual r = u - y and penalise it, their own side being free *)
(* and the other side being the last trajectory of the neighbour.  Blocks of *)
(* nodes are solved one after the other (inner iterations) until the sum of  *)
(* the objectives stops decreasing; then the multipliers move (outer         *)
(* iterations) until the connections hold.                                   *)
(*                                                                           *)
(* The solver of a node is the environment: it answers with any trajectory,  *)
(* succeeds or fails.  Intermediary nodes solve their problem in closed form.*)
(* Trajectories are vectors of values at P points (elements x degree).       *)
(* In the Jacobi variant both ends approach the mean of the last two sides.  *)
(* Values and multipliers are integers, in units of 1/S; penalties integers. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
S == 64
NONE == 1000000

(* A network c: [n, ny, nin : seqs, mid : set of nodes, edges : seq of       *)
(* [a, b, ys, us], blocks : seq of seqs, e, d, rule, mu0, beta, bdec, mumax, *)
(* maxin, maxfirst, maxout, fails, jacobi : both ends approach their mean,   *)
(* gy, gu : guesses of the outputs / inputs  *)
(* of each node (NONE: no guess given) ]                                     *)
Nodes(c) == 1..c.n
Pts(c) == 1..(c.e * c.d)
Max(X) == CHOOSE x \in X : \A y \in X : y <= x
Min2(a, b) == IF a <= b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE s[1] + SumSeq(Tail(s))
RECURSIVE Flatten(_)
Flatten(s) == IF s = <<>> THEN <<>> ELSE s[1] \o Flatten(Tail(s))
Chain(c) == Flatten(c.blocks)
BlockOf(c, n) == CHOOSE b \in DOMAIN c.blocks : \E i \in DOMAIN c.blocks[b] : c.blocks[b][i] = n
(* the edges that end / begin at n, in the order of the connections *)
RECURSIVE EIn(_, _, _)
EIn(c, i, n) == IF i > Len(c.edges) THEN <<>> ELSE (IF c.edges[i].b = n THEN <<i>> ELSE <<>>) \o EIn(c, i + 1, n)
RECURSIVE EOut(_, _, _)
EOut(c, i, n) == IF i > Len(c.edges) THEN <<>> ELSE (IF c.edges[i].a = n THEN <<i>> ELSE <<>>) \o EOut(c, i + 1, n)
InOf(c, n) == EIn(c, 1, n)
OutOf(c, n) == EOut(c, 1, n)
W(c, i) == Len(c.edges[i].ys)

(* ---- what a neighbour sees of a node ---- *)
Zeros(c) == [p \in Pts(c) |-> 0]
Guess(c, g) == [p \in Pts(c) |-> IF g = NONE THEN 0 ELSE g * S]
YOf(c, ans, n, i) == IF ans[n].has THEN ans[n].y[i] ELSE Guess(c, c.gy[n])
UOf(c, ans, n, i) == IF ans[n].has THEN ans[n].u[i] ELSE Guess(c, c.gu[n])
EY(c, ans, i, k) == YOf(c, ans, c.edges[i].a, c.edges[i].ys[k])
EU(c, ans, i, k) == UOf(c, ans, c.edges[i].b, c.edges[i].us[k])

(* ---- the running cost of the problem of node n, times 2 S S, at point p,   *)
(* ---- where its own outputs and inputs take the values v                   *)
Own(c, n, v, p) ==
  LET y(i) == (2 * i + n) * v.y[i][p]
      u(i) == (3 - 5 * i) * v.u[i][p]
      sy == SumSeq([i \in 1..c.ny[n] |-> y(i)])
      su == SumSeq([i \in 1..c.nin[n] |-> u(i)])
  IN 2 * S * (sy + su)
Term(nu, mu, r) == 2 * nu * r + mu * r * r
Cost(c, s, n, v, p) ==
  LET mean(i, k) == (EY(c, s.ans, i, k)[p] + EU(c, s.ans, i, k)[p]) \div 2
      theirY(i, k) == IF c.jacobi THEN mean(i, k) ELSE EY(c, s.ans, i, k)[p]
      theirU(i, k) == IF c.jacobi THEN mean(i, k) ELSE EU(c, s.ans, i, k)[p]
      tin(i) == SumSeq([k \in 1..W(c, i) |-> Term(s.nuI[i][k][p], s.mu[n], v.u[c.edges[i].us[k]][p] - theirY(i, k))])
      tout(i) == SumSeq([k \in 1..W(c, i) |-> Term(s.nuO[i][k][p], s.mu[n], theirU(i, k) - v.y[c.edges[i].ys[k]][p])])
      ins == InOf(c, n)
      outs == OutOf(c, n)
  IN Own(c, n, v, p) + SumSeq([j \in DOMAIN ins |-> tin(ins[j])]) + SumSeq([j \in DOMAIN outs |-> tout(outs[j])])
Costs(c, s, n, v) == [p \in Pts(c) |-> Cost(c, s, n, v, p)]
ZeroV(c, n) == [y |-> [i \in 1..c.ny[n] |-> Zeros(c)], u |-> [i \in 1..c.nin[n] |-> Zeros(c)]]

(* ---- an intermediary node: its input and output are one and the same value *)
(* ---- w, which minimises nu1 (w - y) + mu/2 (w - y)^2 + nu2 (u - w) + mu/2 (u - w)^2 *)
MidNum(c, s, n, k, p) ==
  LET i == InOf(c, n)[1]
      o == OutOf(c, n)[1]
  IN s.nuO[o][k][p] - s.nuI[i][k][p] + s.mu[n] * (EY(c, s.ans, i, k)[p] + EU(c, s.ans, o, k)[p])
MidExact(c, s, n) == \A k \in 1..c.ny[n], p \in Pts(c) : MidNum(c, s, n, k, p) % (2 * s.mu[n]) = 0
MidValue(c, s, n) == [k \in 1..c.ny[n] |-> [p \in Pts(c) |-> MidNum(c, s, n, k, p) \div (2 * s.mu[n])]]

(* ---- residuals of the connections, as seen from the last trajectories ---- *)
(* (half of u - y when both ends approach the mean)                           *)
Res(c, s, i, k) == [p \in Pts(c) |-> (EU(c, s.ans, i, k)[p] - EY(c, s.ans, i, k)[p]) \div (IF c.jacobi THEN 2 ELSE 1)]
MaxRes(c, s, i, k) == Max({Abs(Res(c, s, i, k)[p]) : p \in Pts(c)})
(* the errors a node reports: its inputs, then its outputs *)
Errs(c, s, n) ==
  LET ins == InOf(c, n)
      outs == OutOf(c, n)
      of(i) == [k \in 1..W(c, i) |-> MaxRes(c, s, i, k)]
  IN Flatten([j \in DOMAIN ins |-> of(ins[j])]) \o Flatten([j \in DOMAIN outs |-> of(outs[j])])
With(c, s) == {n \in Nodes(c) : s.ans[n].has}
AllErrs(c, s) == UNION { {Errs(c, s, n)[j] : j \in DOMAIN Errs(c, s, n)} : n \in With(c, s) }
Objective(c, s) == SumSeq([n \in Nodes(c) |-> IF s.ans[n].has THEN s.ans[n].f ELSE 0])

(* ---- the penalties ---- *)
(* changes of the inputs that come from blocks not solved before the node's own *)
DualOf(c, s, n) == { Abs(EY(c, s.ans, t[1], t[2])[t[3]] - s.prev[t[1]][t[2]][t[3]]) :
   t \in { z \in (DOMAIN c.edges) \X (1..2) \X Pts(c) : z[2] <= W(c, z[1]) /\ c.edges[z[1]].b = n /\ BlockOf(c, c.edges[z[1]].a) >= BlockOf(c, n) } }
Duals(c, s) == IF s.outer = 0 THEN {} ELSE UNION { DualOf(c, s, n) : n \in With(c, s) }
(* primal residual over dual residual, compared with gamma = 3/2 *)
PD(c, s) ==
  LET r == Max(AllErrs(c, s))
      d == Max(Duals(c, s))
  IN IF Duals(c, s) = {} THEN "up" ELSE IF 2 * r > 3 * d THEN "up" ELSE IF 2 * d > 3 * r THEN "down" ELSE "same"
NewMu(c, s, n) ==
  IF ~s.ans[n].has \/ c.rule = "constant" THEN s.mu[n]
  ELSE IF c.rule = "bounded-increase" THEN Min2(c.mumax, s.mu[n] * c.beta)
  ELSE CASE PD(c, s) = "up" -> s.mu[n] * c.beta [] PD(c, s) = "down" -> s.mu[n] \div c.bdec [] OTHER -> s.mu[n]
MuExact(c, s) == c.rule = "primal-dual" => /\ (PD(c, s) = "down" => \A n \in Nodes(c) : s.mu[n] % c.bdec = 0)
                                           /\ Duals(c, s) # {} => LET r == Max(AllErrs(c, s))
                                                                      d == Max(Duals(c, s))
                                                                  IN (2 * r # 3 * d /\ 2 * d # 3 * r)

(* ---- transitions ---- *)
VARIABLES c, s, log
vars == <<c, s, log>>
CONSTANTS Configs, Pick(_), Fs
NoAns(k, n) == [has |-> FALSE, y |-> [i \in 1..k.ny[n] |-> Zeros(k)], u |-> [i \in 1..k.nin[n] |-> Zeros(k)], f |-> 0, at |-> 0]
NoNu(k) == [i \in DOMAIN k.edges |-> [j \in 1..W(k, i) |-> Zeros(k)]]
Init ==
  /\ c \in Configs
  /\ s = [ans |-> [n \in Nodes(c) |-> NoAns(c, n)], nuI |-> NoNu(c), nuO |-> NoNu(c), prev |-> NoNu(c), mu |-> [n \in Nodes(c) |-> c.mu0],
          phase |-> "solve", pos |-> 1, inner |-> 0, outer |-> 0, lastobj |-> NONE, rounds |-> 0, exact |-> TRUE]
  /\ log = <<>>

(* the answers of the solvers: four patterns of values *)
Pat(n, kind, i, p, a) == S * (IF a = 0 THEN 0 ELSE IF a = 1 THEN ((2 * n + 3 * i + p + kind) % 4) - 1
                                  ELSE IF a = 2 THEN ((p * p + n + i + 2 * kind) % 5) - 2 ELSE 2 - ((n + 2 * p + i) % 3))
Answer(n, a) == [y |-> [i \in 1..c.ny[n] |-> [p \in Pts(c) |-> Pat(n, 0, i, p, a)]], u |-> [i \in 1..c.nin[n] |-> [p \in Pts(c) |-> Pat(n, 1, i, p, a)]]]
Moved(t) == IF t.pos < Len(Chain(c)) THEN [t EXCEPT !.pos = @ + 1] ELSE [t EXCEPT !.phase = "inner"]
Solve(n, a, ok, f) ==
  LET v == Answer(n, a)
  IN /\ s' = Moved(IF ok THEN [s EXCEPT !.ans[n] = [has |-> TRUE, y |-> v.y, u |-> v.u, f |-> f, at |-> Len(log) + 1]] ELSE s)
     /\ log' = Append(log, [n |-> n, ok |-> ok, f |-> f, y |-> v.y, u |-> v.u, from |-> s.ans[n].at,
                            cost |-> Costs(c, s, n, v), base |-> Costs(c, s, n, ZeroV(c, n))])
Mid(n) ==
  LET w == MidValue(c, s, n)
  IN /\ s' = Moved([s EXCEPT !.ans[n] = [has |-> TRUE, y |-> w, u |-> w, f |-> 0, at |-> 0], !.exact = @ /\ MidExact(c, s, n)])
     /\ UNCHANGED log
SolveNext ==
  /\ s.phase = "solve"
  /\ LET n == Chain(c)[s.pos]
     IN IF n \in c.mid THEN Mid(n)
        ELSE \E a \in Pick(0..3), ok \in Pick(IF c.fails THEN {TRUE, FALSE} ELSE {TRUE}), f \in Pick(Fs) : Solve(n, a, ok, f)
  /\ UNCHANGED c
Inners == IF s.outer = 0 /\ c.maxfirst > c.maxin THEN c.maxfirst ELSE c.maxin
InnerEnd ==
  /\ s.phase = "inner"
  /\ LET obj == Objective(c, s)
         t == [s EXCEPT !.rounds = @ + Len(c.blocks)]
     IN IF (s.lastobj # NONE /\ 4 * obj > 3 * s.lastobj) \/ s.inner + 1 = Inners
        THEN s' = [t EXCEPT !.phase = "outer"]
        ELSE s' = [t EXCEPT !.phase = "solve", !.pos = 1, !.inner = @ + 1, !.lastobj = obj]
  /\ UNCHANGED <<c, log>>
MoveNu(nu, n, i, mu) == [k \in 1..W(c, i) |-> IF s.ans[n].has THEN [p \in Pts(c) |-> nu[k][p] + mu * Res(c, s, i, k)[p]] ELSE nu[k]]
OuterEnd ==
  /\ s.phase = "outer"
  /\ LET t == [s EXCEPT !.nuI = [i \in DOMAIN c.edges |-> MoveNu(s.nuI[i], c.edges[i].b, i, s.mu[c.edges[i].b])],
                        !.nuO = [i \in DOMAIN c.edges |-> MoveNu(s.nuO[i], c.edges[i].a, i, s.mu[c.edges[i].a])],
                        !.prev = [i \in DOMAIN c.edges |-> [k \in 1..W(c, i) |-> EY(c, s.ans, i, k)]],
                        !.mu = [n \in Nodes(c) |-> NewMu(c, s, n)],
                        !.exact = @ /\ With(c, s) # {} /\ MuExact(c, s) /\ 2 * Max(AllErrs(c, s)) # S]
     IN IF With(c, s) = {} \/ 2 * Max(AllErrs(c, s)) < S \/ s.outer + 1 = c.maxout
        THEN s' = [t EXCEPT !.phase = "done"]
        ELSE s' = [t EXCEPT !.phase = "solve", !.pos = 1, !.inner = 0, !.outer = @ + 1, !.lastobj = NONE]
  /\ UNCHANGED <<c, log>>
Next == SolveNext \/ InnerEnd \/ OuterEnd
Spec == Init /\ [][Next]_vars

(* ---- checked on the specification ---- *)
(* the two ends of a connection move their multipliers alike *)
Twins == (~c.fails) => s.nuI = s.nuO
(* an intermediary node is at the minimum: any other value costs more *)
MidOptimal ==
  (s.phase = "solve" /\ Chain(c)[s.pos] \in c.mid) =>
  LET n == Chain(c)[s.pos]
      i == InOf(c, n)[1]
      o == OutOf(c, n)[1]
      J(k, p, w) == Term(s.nuI[i][k][p], s.mu[n], w - EY(c, s.ans, i, k)[p]) + Term(s.nuO[o][k][p], s.mu[n], EU(c, s.ans, o, k)[p] - w)
  IN MidExact(c, s, n) => \A k \in 1..c.ny[n], p \in Pts(c), d \in {-S, -1, 1, S} :
       J(k, p, MidValue(c, s, n)[k][p]) <= J(k, p, MidValue(c, s, n)[k][p] + d)
(* the blocks partition the nodes *)
Parted == \A n \in Nodes(c) : Cardinality({j \in DOMAIN Chain(c) : Chain(c)[j] = n}) = 1
Inv == Twins /\ MidOptimal /\ Parted
=============================================================================
