----------------------------- MODULE Modelling -----------------------------
(* SystemModel: the variables and equations of a dynamic model under every  *)
(* history of edits (yaocptool/modelling/system_model.py and mixins).       *)
(*                                                                          *)
(* World  w.ms : slot -> model,  w.nm : symbol label -> display name.       *)
(* A model: x/x0/odes aligned (odes[i] = <<>> no equation yet, <<e>> else), *)
(* y, alg, u/uexpr aligned, upar free control parameters, pset the          *)
(* parametrized controls, p, th, and its own time symbols t and tau.        *)
EXTENDS LinExpr, TLC

ElemNames(nm, n) == IF n = 1 THEN <<nm>> ELSE [i \in 1..n |-> nm \o "_" \o ToString(i - 1)]
Empty(t, tau, prefix) ==
  [x |-> <<>>, x0 |-> <<>>, odes |-> <<>>, y |-> <<>>, alg |-> <<>>, u |-> <<>>,
   uexpr |-> <<>>, upar |-> <<>>, pset |-> {}, p |-> <<>>, th |-> <<>>,
   t |-> t, tau |-> tau, prefix |-> prefix]

Get(f, a) == f[a]
PutIn(f, a, v) == [b \in DOMAIN f \cup {a} |-> IF b = a THEN v ELSE f[b]]
RECURSIVE PutSeq(_, _, _)
PutSeq(f, as, vs) == IF as = <<>> THEN f ELSE PutSeq(PutIn(f, Head(as), Head(vs)), Tail(as), Tail(vs))

Ok(w) == [w |-> w, out |-> "ok"]
Reject(w) == [w |-> w, out |-> "rejected"]
WithM(w, m, r) == [w EXCEPT !.ms[m] = r]

Init0(slots, prefixes) ==
  [ms |-> [m \in slots |-> Empty("t:" \o m, "tau:" \o m, m \in prefixes)],
   nm |-> [b \in {} |-> ""]]

RealOdes(r) == [i \in 1..Len(SelectSeq(r.odes, LAMBDA o : o # <<>>)) |->
                  SelectSeq(r.odes, LAMBDA o : o # <<>>)[i][1]]
AllVars(r) == r.x \o r.y \o r.u \o r.p \o r.th \o r.upar
SetOde(r, xs, es) == [r EXCEPT !.odes =
   [i \in 1..Len(r.x) |-> IF InSeq(r.x[i], xs) THEN <<es[IndexIn(r.x[i], xs)]>> ELSE r.odes[i]]]
SubstM(r, vs, es) == [r EXCEPT
   !.odes = [i \in 1..Len(r.odes) |-> IF r.odes[i] = <<>> THEN <<>> ELSE <<Subst(r.odes[i][1], vs, es)>>],
   !.alg = SubstSeq(r.alg, vs, es),
   !.uexpr = SubstSeq(r.uexpr, vs, es)]

(* ---- variables ------------------------------------------------------ *)
X0Of(vs) == [i \in 1..Len(vs) |-> vs[i] \o "@0"]
AddVars(r, kind, vs) ==
  CASE kind = "x" -> [r EXCEPT !.x = @ \o vs, !.x0 = @ \o X0Of(vs), !.odes = @ \o [i \in 1..Len(vs) |-> <<>>]]
    [] kind = "y" -> [r EXCEPT !.y = @ \o vs]
    [] kind = "u" -> [r EXCEPT !.u = @ \o vs, !.uexpr = @ \o SymSeq(vs), !.upar = @ \o vs]
    [] kind = "p" -> [r EXCEPT !.p = @ \o vs]
    [] kind = "th" -> [r EXCEPT !.th = @ \o vs]

(* create_<kind>(name, size): a fresh vector of symbols *)
Create(w, op) ==
  LET r == w.ms[op.m]
      full == IF r.prefix THEN op.m \o "_" \o op.name ELSE op.name
      names == ElemNames(full, op.n)
      labels == ElemNames(op.name, op.n)
  IN Ok([w EXCEPT !.ms[op.m] = AddVars(r, op.kind, labels), !.nm = PutSeq(@, labels, names)])

(* include_<kind>(vars[, equations]): symbols the caller made; a state that *)
(* is already there, or an equation list of the wrong length, is rejected.  *)
Include(w, op) ==
  LET r == w.ms[op.m]
      r1 == AddVars(r, op.kind, op.vars)
      r2 == IF op.eq = <<>> THEN r1
            ELSE IF op.kind = "x" THEN SetOde(r1, op.vars, op.eq)
            ELSE [r1 EXCEPT !.alg = @ \o op.eq]
  IN IF op.kind = "x" /\ (RangeOf(op.vars) \cap RangeOf(r.x) # {} \/ (op.eq # <<>> /\ Len(op.eq) # Len(op.vars)))
     THEN Reject(w)
     ELSE Ok([w EXCEPT !.ms[op.m] = r2, !.nm = PutSeq(@, op.vars, op.vars)])

(* remove_<kind>(vars): drops exactly those, with the state's initial       *)
(* condition symbol and equation; removing what is not there is rejected.   *)
Remove(w, op) ==
  LET r == w.ms[op.m]
      R == RangeOf(op.vars)
      I == {i \in 1..Len(r.x) : r.x[i] \in R}
      J == {i \in 1..Len(r.u) : r.u[i] \in R}
  IN CASE op.kind = "x" -> IF R \subseteq RangeOf(r.x)
            THEN Ok(WithM(w, op.m, [r EXCEPT !.x = RemoveIdx(@, I), !.x0 = RemoveIdx(@, I), !.odes = RemoveIdx(@, I)]))
            ELSE Reject(w)
       [] op.kind = "y" -> IF R \subseteq RangeOf(r.y) /\ RangeOf(op.eqi) \subseteq 1..Len(r.alg)   \* eqi 0: an equation the model does not have
            THEN Ok(WithM(w, op.m, [r EXCEPT !.y = RemoveAll(@, R), !.alg = RemoveIdx(@, RangeOf(op.eqi))]))
            ELSE Reject(w)
       [] op.kind = "u" -> IF R \subseteq RangeOf(r.u) /\ R \subseteq RangeOf(r.upar)
            THEN Ok(WithM(w, op.m, [r EXCEPT !.u = RemoveIdx(@, J), !.uexpr = RemoveIdx(@, J), !.upar = RemoveAll(@, R)]))
            ELSE Reject(w)
       [] op.kind = "p" -> IF R \subseteq RangeOf(r.p) THEN Ok(WithM(w, op.m, [r EXCEPT !.p = RemoveAll(@, R)])) ELSE Reject(w)
       [] op.kind = "th" -> IF R \subseteq RangeOf(r.th) THEN Ok(WithM(w, op.m, [r EXCEPT !.th = RemoveAll(@, R)])) ELSE Reject(w)

(* ---- equations ------------------------------------------------------ *)
(* include_equations in its five spellings.  "guess": ode without x, given  *)
(* to the first states that have none, refused when an earlier state has    *)
(* one.  "eq": a positional a == b means a - b = 0.                         *)
Equations(w, op) ==
  LET r == w.ms[op.m]
      nones == {i \in 1..Len(r.x) : r.odes[i] = <<>>}
      first == IF nones = {} THEN 0 ELSE CHOOSE i \in nones : \A j \in nones : i <= j
      n == Len(op.ode)
      xs == IF op.form = "guess" THEN [i \in 1..n |-> IF first + i - 1 \in 1..Len(r.x) THEN r.x[first + i - 1] ELSE "?"] ELSE op.xs
      bad == \/ op.form = "guess" /\ (first = 0 \/ first > 1 \/ Len(r.x) < n)
             \/ op.form # "guess" /\ Len(op.xs) # n
             \/ op.form # "guess" /\ ~(RangeOf(op.xs) \subseteq RangeOf(r.x))
      r1 == [r EXCEPT !.alg = @ \o op.alg]
  IN IF n > 0 /\ bad THEN Reject(w)
     ELSE Ok(WithM(w, op.m, IF n = 0 THEN r1 ELSE SetOde(r1, xs, op.ode)))

Replace(w, op) ==
  IF Len(op.vars) # Len(op.exprs) THEN Reject(w)
  ELSE Ok(WithM(w, op.m, SubstM(w.ms[op.m], op.vars, op.exprs)))

(* parametrize_control(u, expr, u_par) *)
Parametrize(w, op) ==
  LET r == w.ms[op.m]
      r1 == [SubstM(r, op.us, op.exprs) EXCEPT
               !.pset = @ \cup RangeOf(op.us),
               !.upar = RemoveAll(@, RangeOf(op.us)) \o op.upar]
  IN IF \/ Len(op.us) # Len(op.exprs)
        \/ RangeOf(op.us) \cap r.pset # {}
        \/ ~(RangeOf(op.us) \subseteq RangeOf(r.upar))
     THEN Reject(w)
     ELSE Ok([w EXCEPT !.ms[op.m] = r1, !.nm = PutSeq(@, op.upar, op.upar)])

(* connect(u, y[, replace]): u stops being an input.  Either it is          *)
(* substituted, or it becomes an algebraic variable with u - y = 0.  What   *)
(* is not a free input, or is named twice, cannot be connected.             *)
Connect(w, op) ==
  LET r == w.ms[op.m]
      J == {i \in 1..Len(r.u) : r.u[i] \in RangeOf(op.us)}
      r1 == IF op.replace THEN SubstM(r, op.us, op.ys)
            ELSE [r EXCEPT !.y = @ \o op.us,
                           !.alg = @ \o [i \in 1..Len(op.us) |-> Sub(Sym(op.us[i]), op.ys[i])]]
      r2 == [r1 EXCEPT !.u = RemoveIdx(@, J), !.uexpr = RemoveIdx(@, J), !.upar = RemoveAll(@, RangeOf(op.us))]
  IN IF Len(op.us) # Len(op.ys) \/ ~Distinct(op.us) \/ ~(RangeOf(op.us) \subseteq RangeOf(r.u) \cap RangeOf(r.upar))
     THEN Reject(w) ELSE Ok(WithM(w, op.m, r2))

(* ---- composition ------------------------------------------------------ *)
Absorb(r, s) ==
  LET r1 == [r EXCEPT !.x = @ \o s.x, !.x0 = @ \o s.x0, !.odes = @ \o s.odes, !.y = @ \o s.y,
                      !.alg = @ \o s.alg, !.u = @ \o s.u, !.uexpr = @ \o s.uexpr, !.upar = @ \o s.upar,
                      !.pset = @ \cup s.pset, !.p = @ \o s.p, !.th = @ \o s.th]
  IN SubstM(r1, <<s.t, s.tau>>, <<Sym(r.t), Sym(r.tau)>>)
RECURSIVE AbsorbAll(_, _, _)
AbsorbAll(w, m, from) == IF from = <<>> THEN w.ms[m]
  ELSE AbsorbAll(WithM(w, m, Absorb(w.ms[m], w.ms[Head(from)])), m, Tail(from))
Merge(w, op) ==
  LET r == AbsorbAll(w, op.m, op.from)
  IN Ok(WithM(w, op.m, [r EXCEPT !.alg = @ \o op.alg]))

(* ---- copies ----------------------------------------------------------- *)
Copy(w, op) == Ok([w EXCEPT !.ms = PutIn(@, op.to, w.ms[op.m])])
Fresh(vs, to) == [i \in 1..Len(vs) |-> vs[i] \o "~" \o to]
DeepCopy(w, op) ==
  LET r == w.ms[op.m]
      own == r.x \o r.x0 \o r.y \o r.u \o r.p \o r.th \o RemoveAll(r.upar, RangeOf(r.u)) \o <<r.t, r.tau>>
      fr == Fresh(own, op.to)
      F(vs) == Fresh(vs, op.to)
      E(e) == RenameAll(e, own, fr)
      c == [x |-> F(r.x), x0 |-> F(r.x0),
            odes |-> [i \in 1..Len(r.odes) |-> IF r.odes[i] = <<>> THEN <<>> ELSE <<E(r.odes[i][1])>>],
            y |-> F(r.y), alg |-> [i \in 1..Len(r.alg) |-> E(r.alg[i])], u |-> F(r.u),
            uexpr |-> [i \in 1..Len(r.uexpr) |-> E(r.uexpr[i])], upar |-> F(r.upar),
            pset |-> {v \o "~" \o op.to : v \in r.pset}, p |-> F(r.p), th |-> F(r.th),
            t |-> r.t \o "~" \o op.to, tau |-> r.tau \o "~" \o op.to, prefix |-> r.prefix]
      vs == r.x \o r.y \o r.u \o r.p \o r.th \o RemoveAll(r.upar, RangeOf(r.u))
  IN Ok([w EXCEPT !.ms = PutIn(@, op.to, c),
                  !.nm = PutSeq(@, F(vs), [i \in 1..Len(vs) |-> w.nm[vs[i]]])])

Apply(w, op) ==
  CASE op.op = "create" -> Create(w, op)
    [] op.op = "include" -> Include(w, op)
    [] op.op = "remove" -> Remove(w, op)
    [] op.op = "equations" -> Equations(w, op)
    [] op.op = "replace" -> Replace(w, op)
    [] op.op = "parametrize" -> Parametrize(w, op)
    [] op.op = "connect" -> Connect(w, op)
    [] op.op = "merge" -> Merge(w, op)
    [] op.op = "copy" -> Copy(w, op)
    [] op.op = "deepcopy" -> DeepCopy(w, op)

(* ---- what a user can observe ------------------------------------------ *)
ProjM(w, r) ==
  [x |-> r.x, x0 |-> r.x0, ode |-> RealOdes(r), y |-> r.y, alg |-> r.alg, u |-> r.u,
   uexpr |-> r.uexpr, upar |-> r.upar, p |-> r.p, th |-> r.th, t |-> r.t, tau |-> r.tau,
   par |-> [i \in 1..Len(r.u) |-> r.u[i] \in r.pset], anypar |-> r.pset # {},
   names |-> [i \in 1..Len(r.x \o r.y \o r.u \o r.p \o r.th) |-> w.nm[(r.x \o r.y \o r.u \o r.p \o r.th)[i]]],
   type |-> IF r.y = <<>> THEN "ode" ELSE "dae",
   daep |-> r.p \o r.th \o r.upar]
Proj(w) == [m \in DOMAIN w.ms |-> ProjM(w, w.ms[m])]

(* ---- properties of the design ----------------------------------------- *)
Aligned(r) == Len(r.x) = Len(r.x0) /\ Len(r.x) = Len(r.odes) /\ Len(r.u) = Len(r.uexpr)
NoDuplicates(r) == Distinct(r.x) /\ Distinct(r.x0) /\ Distinct(r.y) /\ Distinct(r.u) /\ Distinct(r.upar)
                   /\ Distinct(r.p) /\ Distinct(r.th)
(* every control is either free (its own parameter) or parametrized *)
ControlsAccounted(r) == \A i \in 1..Len(r.u) :
   (r.u[i] \in r.pset) # (InSeq(r.u[i], r.upar) /\ r.u[i] \notin r.pset)
(* no symbol plays two of the five roles *)
RolesDisjoint(r) == Distinct(r.x \o r.y \o r.u \o r.p \o r.th)
ModelInv(w) == \A m \in DOMAIN w.ms :
   LET r == w.ms[m] IN Aligned(r) /\ NoDuplicates(r) /\ ControlsAccounted(r) /\ RolesDisjoint(r)
(* a substituted symbol is gone from every equation *)
Mentions(r, v) == \/ \E i \in 1..Len(r.odes) : r.odes[i] # <<>> /\ Coef(r.odes[i][1], v) # 0
                  \/ \E i \in 1..Len(r.alg) : Coef(r.alg[i], v) # 0
                  \/ \E i \in 1..Len(r.uexpr) : Coef(r.uexpr[i], v) # 0
(* an op touches only the slots it names *)
Frame(w, op, w2) == \A m \in DOMAIN w.ms : (m # op.m /\ ("to" \notin DOMAIN op \/ m # op.to)) => w2.ms[m] = w.ms[m]
Balance(r) == Len(r.alg) - Len(r.y)
StepInv(w, op, res) ==
  /\ Frame(w, op, res.w)
  /\ res.out = "rejected" => res.w = w
  /\ (op.op = "parametrize" /\ res.out = "ok") =>
        \A i \in 1..Len(op.us) : ~Mentions(res.w.ms[op.m], op.us[i])
  /\ (op.op = "connect" /\ res.out = "ok") =>
        /\ Balance(res.w.ms[op.m]) = Balance(w.ms[op.m])
        /\ \A i \in 1..Len(op.us) : ~InSeq(op.us[i], res.w.ms[op.m].u)
        /\ op.replace => \A i \in 1..Len(op.us) : ~Mentions(res.w.ms[op.m], op.us[i])
  /\ (op.op = "merge" /\ Len(op.from) = 1) =>
        Balance(res.w.ms[op.m]) = Balance(w.ms[op.m]) + Balance(w.ms[op.from[1]]) + Len(op.alg)
=============================================================================
