--------------------------------- MODULE Ocp ---------------------------------
(* OptimalControlProblem: the problem data attached to a model under every  *)
(* history of edits (yaocptool/modelling/ocp.py, stochastic_ocp.py).        *)
(*                                                                          *)
(* World  w.um : slot -> the user's model,  w.ps : slot -> problem          *)
(* (w.ps has only the slots whose problem was created), w.nm display names. *)
(* A problem works on its own copy m of the user's model; every bound,      *)
(* guess and initial value is aligned with the variable it belongs to.      *)
EXTENDS Modelling

INF == 1000
Rep(v, n) == [i \in 1..n |-> v]
NoGuess == [has |-> FALSE, v |-> <<>>]
Guess(v) == [has |-> TRUE, v |-> v]
DropG(g, I) == IF g.has THEN Guess(RemoveIdx(g.v, I)) ELSE g
Diff0(xs, x0s) == [i \in 1..Len(xs) |-> Sub(Sym(xs[i]), Sym(x0s[i]))]

NewP(r, x0, t0, tf) ==
  [m |-> r, x0 |-> x0, t0 |-> t0, tf |-> tf,
   xmin |-> Rep(-INF, Len(r.x)), xmax |-> Rep(INF, Len(r.x)), ymin |-> Rep(-INF, Len(r.y)), ymax |-> Rep(INF, Len(r.y)),
   umin |-> Rep(-INF, Len(r.u)), umax |-> Rep(INF, Len(r.u)), dumin |-> Rep(-INF, Len(r.u)), dumax |-> Rep(INF, Len(r.u)),
   popt |-> <<>>, poptmin |-> <<>>, poptmax |-> <<>>, thopt |-> <<>>, thoptmin |-> <<>>, thoptmax |-> <<>>,
   h |-> <<>>, hi |-> Diff0(r.x, r.x0), hf |-> <<>>, geq |-> <<>>, gineq |-> <<>>, tgeq |-> <<>>, tgineq |-> <<>>,
   L |-> Zero, V |-> Zero, S |-> Zero, lastu |-> NoGuess, yg |-> NoGuess, ug |-> NoGuess, pos |-> FALSE, xcost |-> "",
   gs |-> <<>>, gsrhs |-> <<>>, gsprob |-> <<>>, punc |-> <<>>, pmean |-> <<>>, pvar |-> <<>>, pdist |-> <<>>,
   iunc |-> <<>>, imean |-> <<>>, ivar |-> <<>>, wide |-> <<>>, spoiled |-> FALSE]

WorldInit(slots) == [um |-> [s \in slots |-> Empty("t:" \o s, "tau:" \o s, FALSE)], ps |-> [s \in {} |-> 0],
                     nm |-> [b \in {} |-> ""]]
OkW(w) == [w |-> w, out |-> "ok"]
No(w) == [w |-> w, out |-> "rejected"]
PutP(w, s, P) == [w EXCEPT !.ps = PutIn(@, s, P)]

(* the model operations, on the user's model or on the problem's copy *)
UmWorld(w) == [ms |-> w.um, nm |-> w.nm]
PsWorld(w) == [ms |-> [s \in DOMAIN w.ps |-> w.ps[s].m], nm |-> w.nm]
OnUser(w, mop) == LET res == Apply(UmWorld(w), mop) IN [w |-> [w EXCEPT !.um = res.w.ms, !.nm = res.w.nm], out |-> res.out]
OnCopy(w, mop) == LET res == Apply(PsWorld(w), mop) IN
  [w |-> [w EXCEPT !.ps = [s \in DOMAIN w.ps |-> [w.ps[s] EXCEPT !.m = res.w.ms[s]]], !.nm = res.w.nm], out |-> res.out]

Make(w, op) == OkW(PutP(w, op.s, NewP(w.um[op.s], op.x0, op.t0, op.tf)))

(* a bound argument: default (infinite), a scalar (broadcast where allowed), or one entry per row *)
Bnd(b, n, dflt) == IF b.k = "default" THEN Rep(dflt, n) ELSE IF b.k = "scalar" THEN Rep(b.v, n) ELSE b.v
Fits(b, n) == IF b.k \in {"default", "scalar"} THEN TRUE ELSE Len(b.v) = n

(* ---- variables with their data --------------------------------------- *)
State(w, op) ==
  LET P == w.ps[op.s]
      n == Len(op.vars)
      res == OnCopy(w, [op |-> "include", m |-> op.s, kind |-> "x", vars |-> op.vars, eq |-> op.ode])
      Q == res.w.ps[op.s]
      xs0 == IF op.x0 = <<>> THEN Rep(0, n) ELSE op.x0
      hi == IF op.x0 = <<>> THEN op.hin ELSE Diff0(op.vars, X0Of(op.vars))
  IN IF \/ op.x0 = <<>> /\ op.hin = <<>>
        \/ op.x0 # <<>> /\ Len(op.x0) # n
        \/ ~Fits(op.lo, n) \/ ~Fits(op.hi, n) \/ res.out = "rejected"
     THEN No(w)
     ELSE OkW(PutP(res.w, op.s, [Q EXCEPT !.x0 = @ \o xs0, !.hi = @ \o hi,
              !.xmin = @ \o Bnd(op.lo, n, -INF), !.xmax = @ \o Bnd(op.hi, n, INF)]))
Algebraic(w, op) ==
  LET P == w.ps[op.s]
      n == Len(op.vars)
      res == OnCopy(w, [op |-> "include", m |-> op.s, kind |-> "y", vars |-> op.vars, eq |-> op.alg])
      Q == res.w.ps[op.s]
      yg == IF P.yg.has THEN Guess(P.yg.v \o (IF op.guess = <<>> THEN Rep(0, n) ELSE op.guess))
            ELSE IF op.guess # <<>> /\ P.m.y = <<>> THEN Guess(op.guess) ELSE NoGuess
  IN IF ~Fits(op.lo, n) \/ ~Fits(op.hi, n) THEN No(w)
     ELSE OkW(PutP(res.w, op.s, [Q EXCEPT !.yg = yg, !.ymin = @ \o Bnd(op.lo, n, -INF), !.ymax = @ \o Bnd(op.hi, n, INF)]))
Control(w, op) ==
  LET P == w.ps[op.s]
      n == Len(op.vars)
      res == OnCopy(w, [op |-> "include", m |-> op.s, kind |-> "u", vars |-> op.vars, eq |-> <<>>])
      Q == res.w.ps[op.s]
      ug == IF op.guess = <<>> THEN P.ug ELSE IF P.m.u = <<>> THEN Guess(op.guess)
            ELSE IF P.ug.has THEN Guess(P.ug.v \o op.guess) ELSE NoGuess
  IN IF \/ op.guess = <<>> /\ P.ug.has
        \/ op.guess # <<>> /\ Len(op.guess) # n
        \/ ~Fits(op.lo, n) \/ ~Fits(op.hi, n) \/ ~Fits(op.dlo, n) \/ ~Fits(op.dhi, n)
     THEN No(w)
     ELSE OkW(PutP(res.w, op.s, [Q EXCEPT !.ug = ug, !.umin = @ \o Bnd(op.lo, n, -INF), !.umax = @ \o Bnd(op.hi, n, INF),
              !.dumin = @ \o Bnd(op.dlo, n, -INF), !.dumax = @ \o Bnd(op.dhi, n, INF)]))
(* form: "plain" (parameter / theta), "opt" (created or included as a decision), "set" (an existing one becomes a decision) *)
Param(w, op) ==
  LET n == Len(op.vars)
      res == IF op.form = "set" THEN OkW(w)
             ELSE OnCopy(w, [op |-> "include", m |-> op.s, kind |-> op.kind, vars |-> op.vars, eq |-> <<>>])
      Q == res.w.ps[op.s]
      lo == Bnd(op.lo, n, -INF) hi == Bnd(op.hi, n, INF)
  IN IF op.form = "plain" THEN res
     ELSE IF ~Fits(op.lo, n) \/ ~Fits(op.hi, n) THEN No(w)
     ELSE OkW(PutP(res.w, op.s, IF op.kind = "p"
            THEN [Q EXCEPT !.popt = @ \o op.vars, !.poptmin = @ \o lo, !.poptmax = @ \o hi]
            ELSE [Q EXCEPT !.thopt = @ \o op.vars, !.thoptmin = @ \o lo, !.thoptmax = @ \o hi]))
RemoveY(w, op) ==
  LET P == w.ps[op.s]
      I == {i \in 1..Len(P.m.y) : InSeq(P.m.y[i], op.vars)}
      res == OnCopy(w, [op |-> "remove", m |-> op.s, kind |-> "y", vars |-> op.vars, eqi |-> op.eqi])
      Q == res.w.ps[op.s]
  IN IF res.out = "rejected" THEN No(w)
     ELSE OkW(PutP(res.w, op.s, [Q EXCEPT !.ymin = RemoveIdx(@, I), !.ymax = RemoveIdx(@, I), !.yg = DropG(@, I)]))
DropU(P, I) == [P EXCEPT !.umin = RemoveIdx(@, I), !.umax = RemoveIdx(@, I), !.dumin = RemoveIdx(@, I),
                         !.dumax = RemoveIdx(@, I), !.ug = DropG(@, I), !.lastu = DropG(@, I)]
RemoveU(w, op) ==
  LET P == w.ps[op.s]
      I == {i \in 1..Len(P.m.u) : InSeq(P.m.u[i], op.vars)}
      res == OnCopy(w, [op |-> "remove", m |-> op.s, kind |-> "u", vars |-> op.vars, eqi |-> <<>>])
  IN IF res.out = "rejected" THEN No(w) ELSE OkW(PutP(res.w, op.s, DropU(res.w.ps[op.s], I)))

(* ---- constraints, costs, guesses -------------------------------------- *)
Constraint(w, op) ==
  LET P == w.ps[op.s] n == Len(op.exprs) IN
  OkW(PutP(w, op.s, CASE op.k = "initial" -> [P EXCEPT !.hi = @ \o op.exprs]
                      [] op.k = "final" -> [P EXCEPT !.hf = @ \o op.exprs]
                      [] op.k = "h" -> [P EXCEPT !.h = @ \o op.exprs]
                      [] op.k = "ineq" -> [P EXCEPT !.gineq = @ \o op.exprs, !.tgineq = @ \o Rep(op.when, n)]
                      [] op.k = "eq" -> [P EXCEPT !.geq = @ \o op.exprs, !.tgeq = @ \o Rep(op.when, n)]))
Cost(w, op) == OkW(PutP(w, op.s, CASE op.k = "L" -> [w.ps[op.s] EXCEPT !.L = op.e]
                                  [] op.k = "V" -> [w.ps[op.s] EXCEPT !.V = op.e]
                                  [] op.k = "S" -> [w.ps[op.s] EXCEPT !.S = op.e]))
SetGuess(w, op) == OkW(PutP(w, op.s, CASE op.k = "ug" -> [w.ps[op.s] EXCEPT !.ug = Guess(op.v)]
                                       [] op.k = "yg" -> [w.ps[op.s] EXCEPT !.yg = Guess(op.v)]
                                       [] op.k = "lastu" -> [w.ps[op.s] EXCEPT !.lastu = Guess(op.v)]
                                       [] op.k = "pos" -> [w.ps[op.s] EXCEPT !.pos = TRUE]))
(* the user assigns every bound vector *)
SetBounds(w, op) ==
  LET P == w.ps[op.s]
      B(n, b) == [i \in 1..n |-> op.base + b + i]
      lo(n, b) == [i \in 1..n |-> -(op.base + b + i)]
      nx == Len(P.m.x) ny == Len(P.m.y) nu == Len(P.m.u)
  IN OkW(PutP(w, op.s, [P EXCEPT !.xmin = lo(nx, 0), !.xmax = B(nx, 0), !.ymin = lo(ny, 10), !.ymax = B(ny, 10),
        !.umin = lo(nu, 20), !.umax = B(nu, 20), !.dumin = lo(nu, 30), !.dumax = B(nu, 30)]))
(* the user assigns a vector of another size, or a cost with two rows: the problem says so before it is solved *)
Spoil(w, op) ==
  LET P == w.ps[op.s]
      f == op.k
      Q == IF f \in {"L", "V"} THEN [P EXCEPT !.wide = @ \o <<f>>] ELSE [P EXCEPT ![f] = op.v]
  IN OkW(PutP(w, op.s, [Q EXCEPT !.spoiled = TRUE]))
(* the problem starts over from the user's model (a copy of it), keeping its own data *)
Reset(w, op) == OkW(PutP(w, op.s, [w.ps[op.s] EXCEPT !.m = w.um[op.s]]))
(* the integral cost becomes the dynamics of a new state that starts at zero *)
CostState(w, op) ==
  LET P == w.ps[op.s]
      v == op.s \o "_x_c"
      res == State(w, [op |-> "state", s |-> op.s, vars |-> <<v>>, ode |-> <<P.L>>, x0 |-> <<0>>, hin |-> <<>>,
                       lo |-> IF P.pos THEN [k |-> "dm", v |-> <<0>>] ELSE [k |-> "default", v |-> 0], hi |-> [k |-> "default", v |-> 0]])
  IN IF res.out = "rejected" THEN res ELSE OkW(PutP(res.w, op.s, [res.w.ps[op.s] EXCEPT !.xcost = v]))

(* ---- transformations -------------------------------------------------- *)
SubstP(P, vs, es) == [P EXCEPT !.m = SubstM(@, vs, es), !.h = SubstSeq(@, vs, es), !.hi = SubstSeq(@, vs, es),
   !.hf = SubstSeq(@, vs, es), !.geq = SubstSeq(@, vs, es), !.gineq = SubstSeq(@, vs, es),
   !.L = Subst(@, vs, es), !.V = Subst(@, vs, es), !.S = Subst(@, vs, es)]
ReplaceV(w, op) == IF Len(op.vars) # Len(op.exprs) THEN No(w) ELSE OkW(PutP(w, op.s, SubstP(w.ps[op.s], op.vars, op.exprs)))
ParametrizeP(w, op) ==
  LET res == OnCopy(w, [op |-> "parametrize", m |-> op.s, us |-> op.us, exprs |-> op.exprs, upar |-> op.upar])
  IN IF res.out = "rejected" THEN No(w) ELSE OkW(PutP(res.w, op.s, SubstP(res.w.ps[op.s], op.us, op.exprs)))
(* u becomes an algebraic variable with the bounds and guess of the input, or disappears by substitution *)
ConnectP(w, op) ==
  LET P == w.ps[op.s]
      I == {i \in 1..Len(P.m.u) : InSeq(P.m.u[i], op.us)}
      ord == [k \in 1..Len(op.us) |-> IndexIn(op.us[k], P.m.u)]
      res == OnCopy(w, [op |-> "connect", m |-> op.s, us |-> op.us, ys |-> op.ys, replace |-> op.replace])
      Q == res.w.ps[op.s]
      Q1 == IF op.replace THEN SubstP(Q, op.us, op.ys)
            ELSE [Q EXCEPT !.ymin = @ \o [k \in 1..Len(ord) |-> P.umin[ord[k]]], !.ymax = @ \o [k \in 1..Len(ord) |-> P.umax[ord[k]]],
                           !.yg = IF @.has THEN Guess(@.v \o [k \in 1..Len(ord) |-> IF P.ug.has THEN P.ug.v[ord[k]] ELSE 0]) ELSE @]
  IN IF Len(op.us) # Len(op.ys) \/ res.out = "rejected" THEN No(w) ELSE OkW(PutP(res.w, op.s, DropU(Q1, I)))

(* ---- composition ------------------------------------------------------ *)
(* A guess survives when both sides have one (a side without variables of that kind has nothing to guess). *)
JoinG(a, na, b, nb) == IF na = 0 /\ ~a.has THEN b ELSE IF nb = 0 /\ ~b.has THEN a
                       ELSE IF a.has /\ b.has THEN Guess(a.v \o b.v) ELSE NoGuess
MergeOne(P, Q) ==
  LET R == [P EXCEPT !.m = Absorb(P.m, Q.m), !.x0 = @ \o Q.x0, !.xmin = @ \o Q.xmin, !.xmax = @ \o Q.xmax,
      !.ymin = @ \o Q.ymin, !.ymax = @ \o Q.ymax, !.umin = @ \o Q.umin, !.umax = @ \o Q.umax,
      !.dumin = @ \o Q.dumin, !.dumax = @ \o Q.dumax, !.popt = @ \o Q.popt, !.poptmin = @ \o Q.poptmin,
      !.poptmax = @ \o Q.poptmax, !.thopt = @ \o Q.thopt, !.thoptmin = @ \o Q.thoptmin, !.thoptmax = @ \o Q.thoptmax,
      !.h = @ \o Q.h, !.hi = @ \o Q.hi, !.hf = @ \o Q.hf, !.geq = @ \o Q.geq, !.gineq = @ \o Q.gineq,
      !.tgeq = @ \o Q.tgeq, !.tgineq = @ \o Q.tgineq, !.L = Add(@, Q.L), !.V = Add(@, Q.V), !.S = Add(@, Q.S),
      !.lastu = JoinG(@, Len(P.m.u), Q.lastu, Len(Q.m.u)), !.yg = JoinG(@, Len(P.m.y), Q.yg, Len(Q.m.y)),
      !.ug = JoinG(@, Len(P.m.u), Q.ug, Len(Q.m.u)), !.pos = @ /\ Q.pos]
  IN SubstP(R, <<Q.m.t, Q.m.tau>>, <<Sym(P.m.t), Sym(P.m.tau)>>)
RECURSIVE MergeAll(_, _, _)
MergeAll(w, P, from) == IF from = <<>> THEN P ELSE MergeAll(w, MergeOne(P, w.ps[Head(from)]), Tail(from))
MergeP(w, op) ==
  IF \E i \in 1..Len(op.from) : w.ps[op.from[i]].t0 # w.ps[op.s].t0 \/ w.ps[op.from[i]].tf # w.ps[op.s].tf THEN No(w)
  ELSE OkW(PutP(w, op.s, MergeAll(w, w.ps[op.s], op.from)))

(* ---- uncertain data (StochasticOCP) ----------------------------------- *)
Uncertain(w, op) ==
  LET n == Len(op.vars)
      res == IF op.form = "set" \/ op.k = "init" THEN OkW(w)
             ELSE OnCopy(w, [op |-> "include", m |-> op.s, kind |-> "p", vars |-> op.vars, eq |-> <<>>])
      Q == res.w.ps[op.s]
  IN IF Len(op.mean) # n \/ Len(op.var) # n THEN No(w)
     ELSE OkW(PutP(res.w, op.s, IF op.k = "p"
       THEN [Q EXCEPT !.punc = @ \o op.vars, !.pmean = @ \o op.mean, !.pvar = @ \o op.var, !.pdist = @ \o Rep(op.dist, n)]
       ELSE [Q EXCEPT !.iunc = @ \o op.vars, !.imean = @ \o op.mean, !.ivar = @ \o op.var]))
Chance(w, op) ==
  LET n == Len(op.exprs) IN
  IF ~Fits(op.rhs, n) \/ Len(op.prob) # n THEN No(w)
  ELSE OkW(PutP(w, op.s, [w.ps[op.s] EXCEPT !.gs = @ \o op.exprs, !.gsrhs = @ \o Bnd(op.rhs, n, 0), !.gsprob = @ \o op.prob]))

ApplyP(w, op) ==
  CASE op.op = "user" -> OnUser(w, op.mop)
    [] op.op = "make" -> Make(w, op)
    [] op.op = "state" -> State(w, op)
    [] op.op = "algebraic" -> Algebraic(w, op)
    [] op.op = "control" -> Control(w, op)
    [] op.op = "param" -> Param(w, op)
    [] op.op = "rmy" -> RemoveY(w, op)
    [] op.op = "rmu" -> RemoveU(w, op)
    [] op.op = "constraint" -> Constraint(w, op)
    [] op.op = "cost" -> Cost(w, op)
    [] op.op = "guess" -> SetGuess(w, op)
    [] op.op = "bounds" -> SetBounds(w, op)
    [] op.op = "spoil" -> Spoil(w, op)
    [] op.op = "reset" -> Reset(w, op)
    [] op.op = "coststate" -> CostState(w, op)
    [] op.op = "replaceP" -> ReplaceV(w, op)
    [] op.op = "parametrizeP" -> ParametrizeP(w, op)
    [] op.op = "connectP" -> ConnectP(w, op)
    [] op.op = "mergeP" -> MergeP(w, op)
    [] op.op = "uncertain" -> Uncertain(w, op)
    [] op.op = "chance" -> Chance(w, op)

(* ---- observation ------------------------------------------------------- *)
IdxOf(vs, all) == [i \in 1..Len(vs) |-> IndexIn(vs[i], all) - 1]
HasDu(P) == (\E i \in 1..Len(P.dumin) : P.dumin[i] # -INF) \/ (\E i \in 1..Len(P.dumax) : P.dumax[i] # INF)
Checks(P) == /\ P.wide = <<>>
             /\ \A f \in {"x0", "xmin", "xmax"} : Len(P[f]) = Len(P.m.x)
             /\ \A f \in {"ymin", "ymax"} : Len(P[f]) = Len(P.m.y)
             /\ \A f \in {"umin", "umax", "dumin", "dumax"} : Len(P[f]) = Len(P.m.u)
             /\ \A f \in {"poptmin", "poptmax"} : Len(P[f]) = Len(P.popt)
             /\ \A f \in {"thoptmin", "thoptmax"} : Len(P[f]) = Len(P.thopt)
ProjP(w, s) ==
  LET P == w.ps[s] IN
  [k \in DOMAIN P \ {"m", "spoiled"} |-> P[k]]
  @@ [model |-> ProjM(w, P.m), hasdu |-> HasDu(P) /\ ~P.spoiled, checks |-> Checks(P),
      pidx |-> IdxOf(P.popt, P.m.p), thidx |-> IdxOf(P.thopt, P.m.th),
      uncidx |-> IdxOf(P.punc, P.m.p), certain |-> RemoveAll(P.m.p, RangeOf(P.punc)), iidx |-> IdxOf(P.iunc, P.m.x0)]
ProjW(w) == [um |-> [s \in DOMAIN w.um |-> ProjM(w, w.um[s])], ps |-> [s \in DOMAIN w.ps |-> ProjP(w, s)]]

(* ---- properties of the design ------------------------------------------ *)
AlignedP(P) ==
  /\ Len(P.xmin) = Len(P.m.x) /\ Len(P.xmax) = Len(P.m.x)
  /\ Len(P.ymin) = Len(P.m.y) /\ Len(P.ymax) = Len(P.m.y)
  /\ Len(P.umin) = Len(P.m.u) /\ Len(P.umax) = Len(P.m.u)
  /\ Len(P.dumin) = Len(P.m.u) /\ Len(P.dumax) = Len(P.m.u)
  /\ Len(P.tgeq) = Len(P.geq) /\ Len(P.tgineq) = Len(P.gineq)
  /\ Len(P.popt) = Len(P.poptmin) /\ Len(P.popt) = Len(P.poptmax)
  /\ P.yg.has => Len(P.yg.v) = Len(P.m.y)
  /\ P.ug.has => Len(P.ug.v) = Len(P.m.u)
  /\ RangeOf(P.popt) \subseteq RangeOf(P.m.p) /\ RangeOf(P.thopt) \subseteq RangeOf(P.m.th)
OcpInv(w) == \A s \in DOMAIN w.ps : w.ps[s].spoiled \/ (AlignedP(w.ps[s]) /\ Aligned(w.ps[s].m) /\ RolesDisjoint(w.ps[s].m))
MentionsP(P, v) == \/ Mentions(P.m, v) \/ Coef(P.L, v) # 0 \/ Coef(P.V, v) # 0 \/ Coef(P.S, v) # 0
                   \/ \E e \in RangeOf(P.h \o P.hi \o P.hf \o P.geq \o P.gineq) : Coef(e, v) # 0
OcpStep(w, op, res) ==
  /\ res.out = "rejected" => res.w = w
  /\ op.op # "user" => res.w.um = w.um
  /\ \A s \in DOMAIN w.ps : (op.op # "user" /\ s # op.s) => res.w.ps[s] = w.ps[s]
  /\ (op.op = "parametrizeP" /\ res.out = "ok") => \A i \in 1..Len(op.us) : ~MentionsP(res.w.ps[op.s], op.us[i])
  /\ (op.op = "connectP" /\ res.out = "ok" /\ op.replace) => \A i \in 1..Len(op.us) : ~MentionsP(res.w.ps[op.s], op.us[i])
  /\ (op.op = "mergeP" /\ res.out = "ok") => \A i \in 1..Len(op.from) :
        ~MentionsP(res.w.ps[op.s], w.ps[op.from[i]].m.t) /\ ~MentionsP(res.w.ps[op.s], w.ps[op.from[i]].m.tau)
=============================================================================
