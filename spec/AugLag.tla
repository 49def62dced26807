------------------------------- MODULE AugLag -------------------------------
(* The augmented Lagrangian protocol.  A problem is given some equations to   *)
(* relax: algebraic equations, time equalities, and (on request) the bounds   *)
(* of the states.  Each iteration solves the problem in which a relaxed       *)
(* equation r_i = 0 is replaced by the running cost                           *)
(*        nu_i r_i + mu_i / 2 r_i^2                                           *)
(* and the variable of a relaxed algebraic equation has become a control with *)
(* the bounds of that variable; then the multiplier moves by mu_i r_i at      *)
(* every point of its representation, the penalty by its rule, and the loop   *)
(* ends as soon as every error is under the tolerance, or at the limit.       *)
(* Multipliers, penalties and the last error live on to the next call.        *)
(* A method that coordinates several such problems asks for no update in the  *)
(* calls, makes it itself afterwards (Update, or Dual and SetMu) and can set  *)
(* the penalties at any time.                                                 *)
(*                                                                           *)
(* The environment is the solver of the subproblem: it hands back any         *)
(* trajectory.  Here it chooses the residuals and the speed w of the state;   *)
(* the values of the variables follow from the equations.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Problems,      \* problems and options
          Residuals(_),  \* residual patterns: functions row -> el -> point -> Int
          Speeds(_),     \* w per element
          Args(_),       \* [p, h per element, x0]
          Slips(_),      \* residual of the equalities that stay, inside an element
          Pick(_),       \* the choices that are tried: all of a set, or one of it
          Mus(_),        \* penalties that are set from outside
          Starts(_),     \* initial multipliers, <<>> for none given
          Exos(_),       \* values of the variables of the neighbours
          MaxCalls
VARIABLES q, nu, mu, last, it, arg, calls, log,
          due,           \* the residuals whose update is still to be made from outside
          exo            \* what the neighbours had at the last Dual
vars == <<q, nu, mu, last, it, arg, calls, log, due, exo>>

INF == 1000000
SYM == {"x", "v", "w", "p", "h", "t", "c"}
E0 == [s \in SYM |-> 0]
Range(s) == {s[i] : i \in DOMAIN s}
Abs(a) == IF a < 0 THEN -a ELSE a
MaxOf(S) == CHOOSE a \in S : \A b \in S : b <= a
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

(* A row s * own + coef_z * z + rest = 0 where z is the variable of an        *)
(* equation that is not relaxed.  Relaxed rows in order: algebraic equations, *)
(* state bounds, time equalities.                                             *)
(* The states are x and, where xb has two entries, v with v' = -2 x'.         *)
SbRow(i) == [own |-> <<"yx1", "yx2">>[i], s |-> 1, z |-> 0, when |-> "default", e |-> IF i = 1 THEN [E0 EXCEPT !.x = -1] ELSE [E0 EXCEPT !.v = -1]]
Free(b) == b[1] = -INF /\ b[2] = INF
SbSeq(pr) == IF ~pr.sb THEN <<>> ELSE SelectSeq(<<1, 2>>, LAMBDA i : i <= Len(pr.xb) /\ ~Free(pr.xb[i]))
Rows(pr) == [i \in DOMAIN pr.rel |-> pr.alg[pr.rel[i]]]
            \o [i \in DOMAIN SbSeq(pr) |-> SbRow(SbSeq(pr)[i])]
            \o [i \in DOMAIN pr.rele |-> pr.eqs[pr.rele[i]]]
NRow(pr) == Len(Rows(pr))
NAlg(pr) == Len(pr.rel) + Len(SbSeq(pr))
Kept(pr) == { i \in DOMAIN pr.alg : i \notin Range(pr.rel) }
KeptEq(pr) == { i \in DOMAIN pr.eqs : i \notin Range(pr.rele) }
Els(pr) == 1..pr.n
Pts(pr) == 1..pr.d

(* time since the beginning of the element of the point j (the points of      *)
(* degree 3 are irrational: with that degree nothing varies in an element)    *)
Off(pr, j) == IF pr.d = 2 THEN (IF j = 1 THEN pr.dt \div 3 ELSE pr.dt) ELSE pr.dt
XStart(pr, a, w, k) == a.x0 + pr.dt * SumSeq([i \in 1..(k - 1) |-> w[i]])
V(a, x) == a.x0 + 1 - 2 * (x - a.x0)
Env(pr, a, w, k, s) == [x |-> XStart(pr, a, w, k) + w[k] * s, v |-> V(a, XStart(pr, a, w, k) + w[k] * s), w |-> w[k], p |-> a.p, h |-> a.h[k],
                        t |-> pr.t0 + (k - 1) * pr.dt + s, c |-> 1]
Lin(e, v) == e.x * v.x + e.v * v.v + e.w * v.w + e.p * v.p + e.h * v.h + e.t * v.t + e.c
(* the variable of the (only) equation that stays *)
Z(pr, v) == IF Kept(pr) = {} THEN 0 ELSE LET r == pr.alg[CHOOSE i \in Kept(pr) : TRUE] IN -r.s * Lin(r.e, v)
(* the variable of a relaxed row that gives the residual res *)
Own(pr, row, v, res) == row.s * (res - row.z * Z(pr, v) - Lin(row.e, v))

(* The trajectory the environment returns: residuals r, speeds w; equalities  *)
(* that are not relaxed have the residual sl before the end of an element.    *)
Traj(pr, a, r, w, sl) ==
  [w |-> w,
   x |-> [k \in Els(pr) |-> <<XStart(pr, a, w, k)>> \o [j \in Pts(pr) |-> Env(pr, a, w, k, Off(pr, j)).x]],
   xf |-> XStart(pr, a, w, pr.n + 1),
   v |-> [k \in Els(pr) |-> <<V(a, XStart(pr, a, w, k))>> \o [j \in Pts(pr) |-> Env(pr, a, w, k, Off(pr, j)).v]],
   vf |-> V(a, XStart(pr, a, w, pr.n + 1)),
   z |-> [k \in Els(pr) |-> [j \in Pts(pr) |-> Z(pr, Env(pr, a, w, k, Off(pr, j)))]],
   own |-> [i \in 1..NRow(pr) |-> [k \in Els(pr) |-> [j \in Pts(pr) |->
              Own(pr, Rows(pr)[i], Env(pr, a, w, k, Off(pr, j)), r[i][k][j])]]],
   kept |-> [i \in KeptEq(pr) |-> [k \in Els(pr) |-> [j \in Pts(pr) |->
              Own(pr, pr.eqs[i], Env(pr, a, w, k, Off(pr, j)), IF j < pr.d THEN sl ELSE 0)]]]]
In(v, b) == b[1] <= v /\ v <= b[2]
YB(pr, name) == pr.yb[CHOOSE i \in DOMAIN pr.ys : pr.ys[i] = name]
(* the subproblem keeps the bounds: of the relaxed variables, of the states   *)
(* unless these were relaxed, in which case their copy carries them           *)
Violates(pr, tr, sl) ==
     { <<"equality", pr.eqs[i].own>> : i \in { i \in KeptEq(pr) : pr.eqs[i].when = "default" /\ sl # 0 } }
  \cup
     { <<"bound", Rows(pr)[i].own>> : i \in { i \in 1..Len(pr.rel) :
            \E k \in Els(pr), j \in Pts(pr) : ~In(tr.own[i][k][j], YB(pr, Rows(pr)[i].own)) } }
  \cup { <<"bound", pr.alg[i].own>> : i \in { i \in Kept(pr) : \E k \in Els(pr), j \in Pts(pr) : ~In(tr.z[k][j], YB(pr, pr.alg[i].own)) } }
  \cup { <<"bound", "copy of state", i>> : i \in { i \in DOMAIN SbSeq(pr) :
            \E k \in Els(pr), j \in Pts(pr) : ~In(tr.own[Len(pr.rel) + i][k][j], pr.xb[SbSeq(pr)[i]]) } }
  \cup (IF pr.sb THEN {} ELSE { <<"bound", "state", i>> : i \in { i \in DOMAIN pr.xb :
            LET xs == IF i = 1 THEN tr.x ELSE tr.v
                xf == IF i = 1 THEN tr.xf ELSE tr.vf
            IN (\E k \in Els(pr) : \E j \in DOMAIN xs[k] : ~In(xs[k][j], pr.xb[i])) \/ ~In(xf, pr.xb[i]) } })

(* the running cost of the subproblem at every point *)
L0(pr, v) == v.x + 2 * v.w + (IF Len(pr.xb) = 2 THEN 3 * v.v ELSE 0)
RunCost(pr, a, r, w, m, n) ==
  [k \in Els(pr) |-> [j \in Pts(pr) |->
     L0(pr, Env(pr, a, w, k, Off(pr, j))) + SumSeq([i \in 1..NRow(pr) |-> n[i][k][j] * r[i][k][j] + ((m[i] * r[i][k][j] * r[i][k][j]) \div 2)])]]
(* its integral, times four *)
Cost4(pr, lc) == SumSeq([k \in Els(pr) |->
  IF pr.d = 2 THEN pr.dt * (3 * lc[k][1] + lc[k][2]) ELSE 4 * pr.dt * lc[k][1]])

Errors(pr, r) == [i \in 1..NRow(pr) |-> MaxOf({Abs(r[i][k][j]) : k \in Els(pr), j \in Pts(pr)})]
Met(pr, err) == \A i \in DOMAIN err : 2 * err[i] < pr.tol2

(* updates *)
Moves(pr, err, i) == ~pr.impr \/ last = <<>> \/ err[i] < last[i]
NewNu(pr, r, err) == [i \in 1..NRow(pr) |-> [k \in Els(pr) |-> [j \in Pts(pr) |->
   nu[i][k][j] + (IF Moves(pr, err, i) THEN mu[i] * r[i][k][j] ELSE 0)]]]
Grow(pr, m) == IF m * pr.beta > pr.mumax THEN pr.mumax ELSE m * pr.beta
NewMu(pr, err) == [i \in 1..NRow(pr) |->
   CASE pr.rule = "constant" -> mu[i]
     [] pr.rule = "bounded-increase" -> Grow(pr, mu[i])
     [] pr.rule = "primal" -> IF last = <<>> \/ 5 * err[i] <= 2 * last[i] THEN mu[i] ELSE Grow(pr, mu[i])]
(* Comparisons decided by rounding are left to the implementation. *)
Decided(pr, err) == IF last = <<>> THEN TRUE ELSE \A i \in DOMAIN err :
   /\ (pr.rule = "primal" => 5 * err[i] # 2 * last[i])
   /\ (pr.impr => (err[i] # last[i] \/ \A j \in DOMAIN err : err[j] = 0))

ZeroNu(pr) == [i \in 1..NRow(pr) |-> [k \in Els(pr) |-> [j \in Pts(pr) |-> 0]]]
Init == /\ q \in Problems
        /\ \E s \in Pick(Starts(q)) : nu = IF s = <<>> THEN ZeroNu(q) ELSE s
        /\ mu = [i \in 1..NRow(q) |-> q.mu0]
        /\ last = <<>> /\ it = 0 /\ arg = [on |-> FALSE] /\ calls = 0 /\ log = <<[op |-> "new", nu |-> nu]>>
        /\ due = <<>> /\ exo = <<>>

Call == /\ ~arg.on /\ calls < MaxCalls
        /\ \E a \in Pick(Args(q)), s \in Pick(IF calls = 0 THEN {"guess"} ELSE {"guess", "solution"}) :
             (* started from a given vector, or from the solution of the last call *)
             /\ arg' = [on |-> TRUE, a |-> a]
             /\ log' = Append(log, [op |-> "call", a |-> a, start |-> s])
        /\ it' = 0 /\ calls' = calls + 1 /\ due' = <<>>
        /\ UNCHANGED <<q, nu, mu, last, exo>>

Step(r, w, sl) ==
  /\ LET a == arg.a
         err == Errors(q, r)
         tr == Traj(q, a, r, w, sl)
         lc == RunCost(q, a, r, w, mu, nu)
         stop == (~q.noupd /\ Met(q, err)) \/ it + 1 = q.maxit
         step == [op |-> "solve", r |-> r, tr |-> tr, sl |-> sl, run |-> lc, cost4 |-> Cost4(q, lc), bad |-> Violates(q, tr, sl),
                  nu |-> nu, mu |-> mu, stop |-> stop, err |-> err]
     IN /\ nu' = IF q.noupd THEN nu ELSE NewNu(q, r, err)
        /\ mu' = IF q.noupd THEN mu ELSE NewMu(q, err)
        /\ last' = IF q.noupd THEN last ELSE err
        /\ it' = it + 1
        /\ arg' = IF stop THEN [on |-> FALSE] ELSE arg
        /\ due' = IF q.noupd /\ stop THEN r ELSE <<>>
        /\ log' = Append(log, step)
  /\ UNCHANGED <<q, calls, exo>>
Iterate ==
  /\ arg.on
  /\ \E r \in Pick({r \in Residuals(q) : Decided(q, Errors(q, r))}), w \in Pick(Speeds(q)), sl \in Pick(Slips(q)) : Step(r, w, sl)
(* the solver answers exactly what it answered before: no error has improved *)
Again ==
  /\ arg.on /\ q.impr /\ it > 0 /\ log[Len(log)].op = "solve"
  /\ LET e == log[Len(log)] IN /\ (q.rule = "primal" => \A i \in DOMAIN e.err : e.err[i] # 0)
                                /\ Step(e.r, e.tr.w, e.sl)
(* the update from outside *)
Update == /\ ~arg.on /\ due # <<>>
          /\ LET err == Errors(q, due)
             IN /\ Decided(q, err)
                /\ nu' = NewNu(q, due, err) /\ mu' = NewMu(q, err) /\ last' = err
                /\ log' = Append(log, [op |-> "update", err |-> err])
          /\ due' = <<>> /\ UNCHANGED <<q, it, arg, calls, exo>>
(* the multipliers move, the penalties wait for SetMu; primal is the largest  *)
(* error, dual the largest move of what neighbours of the own block or later  *)
(* blocks sent (none at the first time)                                       *)
Later == {"n2", "n3"}
Dual == /\ ~arg.on /\ due # <<>> /\ ~q.impr
        /\ \E e \in Pick(Exos(q)) :
             LET err == Errors(q, due)
             IN /\ nu' = NewNu(q, due, err) /\ exo' = e
                /\ log' = Append(log, [op |-> "dual", err |-> err, primal |-> MaxOf(Range(err)), e |-> e,
                     dual |-> IF exo = <<>> THEN -1 ELSE MaxOf({ Abs(e[n][i] - exo[n][i]) : n \in Later, i \in 1..2 })])
        /\ due' = <<>> /\ UNCHANGED <<q, mu, last, it, arg, calls>>
SetMu == /\ ~arg.on /\ log[Len(log)].op # "setmu"
         /\ \E m \in Pick(Mus(q)) :
              /\ mu' = IF Len(m) = NRow(q) THEN m ELSE IF Len(m) = 1 THEN [i \in 1..NRow(q) |-> m[1]] ELSE mu
              /\ log' = Append(log, [op |-> "setmu", m |-> m, ok |-> Len(m) \in {1, NRow(q)}])
         /\ UNCHANGED <<q, nu, last, it, arg, calls, due, exo>>
Next == Call \/ Iterate \/ Again \/ Update \/ Dual \/ SetMu
Spec == Init /\ [][Next]_vars

(* What the protocol guarantees. *)
Steps == { i \in DOMAIN log : log[i].op = "solve" }
Untouched == \A s \in DOMAIN log : log[s].op # "setmu"
PenaltyBounded == Untouched => \A i \in DOMAIN mu : q.mu0 <= mu[i] /\ mu[i] <= (IF q.rule = "constant" THEN q.mu0 ELSE q.mumax)
PenaltyMonotone == Untouched => \A a, b \in Steps : a < b => \A i \in DOMAIN mu : log[a].mu[i] <= log[b].mu[i]
(* without the improvement filter the multiplier is the sum of all mu r so far *)
MultiplierIsSum == (~q.impr /\ ~q.noupd) => \A i \in DOMAIN mu, k \in Els(q), j \in Pts(q) :
   nu[i][k][j] = log[1].nu[i][k][j] + SumSeq([s \in DOMAIN log |-> IF log[s].op = "solve" THEN log[s].mu[i] * log[s].r[i][k][j] ELSE 0])
Bounded == it <= q.maxit
StopsAtOnce == \A s \in Steps : (Met(q, log[s].err) /\ ~q.noupd) => log[s].stop
(* a feasible trajectory (all residuals zero) costs what it costs in the      *)
(* problem, whatever the multipliers                                          *)
PenaltyFree == \A s \in Steps : (\A i \in DOMAIN mu : log[s].err[i] = 0) =>
   \A k \in Els(q), j \in Pts(q) : log[s].run[k][j] = log[s].tr.x[k][j + 1] + 2 * log[s].tr.w[k] + (IF Len(q.xb) = 2 THEN 3 * log[s].tr.v[k][j + 1] ELSE 0)
Representable == q.d = 3 => \A s \in Steps : \A k \in Els(q) : \A j \in Pts(q) : log[s].run[k][j] = log[s].run[k][1]
Inv == PenaltyBounded /\ PenaltyMonotone /\ MultiplierIsSum /\ Bounded /\ StopsAtOnce /\ PenaltyFree /\ Representable
=============================================================================
