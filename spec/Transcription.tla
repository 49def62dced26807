--------------------------- MODULE Transcription ----------------------------
(* What a direct method owes its user: the decision vectors its NLP accepts   *)
(* are exactly the trajectories that satisfy the optimal control problem, and *)
(* the objective of the NLP is the cost of the problem along them.            *)
(*                                                                           *)
(* The system under control has two states, an algebraic variable, two        *)
(* controls, two parameters (one may be optimised), two time dependent        *)
(* parameters (one may be optimised) and a cost state.  Its equations are     *)
(* chosen so that along piecewise polynomial controls every variable is a     *)
(* polynomial with integer coefficients in the time s since the beginning of  *)
(* the element; the equations of the problem are then identities between      *)
(* polynomials and the transcription is exact.                                *)
(*                                                                           *)
(* The transition system unrolls a candidate trajectory element by element.   *)
(* At most one element carries a fault: a jump of a state at its beginning, a *)
(* derivative that is off, an algebraic variable that is off.  Whether the    *)
(* candidate is feasible is decided by definition, from its polynomials.      *)
EXTENDS Poly, FiniteSets
INF == 1000000
SYM == {"x1", "x2", "y", "u1", "u2", "t", "p1", "p2", "h1", "h2", "c"}

(* A problem q: [sch, n, deg, dc, t0, dt, x0 <<a,b>>, ode1, ode2, alg : expr, *)
(*  hasy, L, V, S : expr, luu, g : seq of [k, w, e], hf, h : seq of expr,     *)
(*  xb, yb, ub, dub : bounds, last : Int or INF, popt, hopt : which entries *)
(*  are optimised, in order; pb, hb : bounds; sum : the cost state starts at  *)
(*  zero in every element and the costs of the elements are added up; hi : seq *)
(*  of expr, equalities at the initial time; pin : which of the states start  *)
(*  at the initial condition ].  An expr maps SYM to coefficients.            *)
E0 == [s \in SYM |-> 0]
(* values of the symbols on one element as polynomials *)
T(q, k) == q.t0 + (k - 1) * q.dt
Env(q, k, x1, x2, y, u, p, h) ==
  [x1 |-> x1, x2 |-> x2, y |-> y, u1 |-> u[1], u2 |-> u[2], t |-> Lin(T(q, k), 1),
   p1 |-> Const(p[1]), p2 |-> Const(p[2]), h1 |-> Const(h[1]), h2 |-> Const(h[2]), c |-> Const(1)]
Val(e, env) ==
  LET t(s) == PScale(e[s], env[s])
  IN PAdd(PAdd(PAdd(PAdd(t("x1"), t("x2")), PAdd(t("y"), t("t"))), PAdd(PAdd(t("u1"), t("u2")), PAdd(t("p1"), t("p2")))),
          PAdd(PAdd(t("h1"), t("h2")), t("c")))
Lval(q, env) == PAdd(Val(q.L, env), PScale(q.luu, PMul(env.u1, env.u1)))

(* One element: the start values, the pieces of control, the fault. *)
Faults(q) == {[f |-> "none", v |-> "", d |-> 0]}
  \cup { fl \in { [f |-> f, v |-> v, d |-> 12] : f \in {"jump", "slope"}, v \in {"x1", "x2", "xc"} } :
         ~(q.sum /\ fl.f = "slope" /\ fl.v = "xc") }
  \cup (IF q.hasy THEN {[f |-> "slope", v |-> "y", d |-> 12]} ELSE {})
Jump(flt, v) == IF flt.f = "jump" /\ flt.v = v THEN flt.d ELSE 0
Slope(flt, v) == IF flt.f = "slope" /\ flt.v = v THEN flt.d ELSE 0
Element(q, k, start, u, p, h, flt) ==
  LET e0 == Env(q, k, Zero, Zero, Zero, u, p, h)
      x1 == PAdd(Lin(start.x1 + Jump(flt, "x1"), Slope(flt, "x1")), PInt(Val(q.ode1, e0)))
      y == IF q.hasy THEN PAdd(Const(Slope(flt, "y")), Val(q.alg, Env(q, k, x1, Zero, Zero, u, p, h))) ELSE Zero
      x2 == PAdd(Lin(start.x2 + Jump(flt, "x2"), Slope(flt, "x2")), PInt(Val(q.ode2, Env(q, k, x1, Zero, y, u, p, h))))
      xc == PAdd(Lin(start.xc + Jump(flt, "xc"), Slope(flt, "xc")), PInt(Lval(q, Env(q, k, x1, x2, y, u, p, h))))
  IN [x1 |-> x1, x2 |-> x2, y |-> y, xc |-> xc, u |-> u, h |-> h]
End(q, el) == [x1 |-> PEval(el.x1, q.dt), x2 |-> PEval(el.x2, q.dt), xc |-> PEval(el.xc, q.dt)]

(* Times inside an element at which the method has a point, in units of the   *)
(* element's time; points of degree 3 are not integers and are named by INF.  *)
Points(q, d) == IF d = 1 THEN <<q.dt>> ELSE IF d = 2 THEN <<q.dt \div 3, q.dt>> ELSE <<INF, INF, q.dt>>
StatePts(q) == IF q.sch = "ms" THEN <<0>> ELSE <<0>> \o Points(q, q.deg)
AlgPts(q) == IF q.sch = "ms" THEN <<q.dt>> ELSE Points(q, q.deg)
CtrlPts(q) == IF q.dc = 1 THEN <<0>> ELSE Points(q, q.dc)
GPts(q, w) == IF w = "start" THEN <<0>> ELSE IF w = "end" THEN <<q.dt>> ELSE AlgPts(q)
Range(s) == {s[i] : i \in DOMAIN s}
Within(v, b) == b[1] <= v /\ v <= b[2]
Free(b) == b = <<-INF, INF>>
In(b, poly, pts) == Free(b) \/ \A s \in Range(pts) : Within(PEval(poly, s), b)

(* ---- the definition of feasibility: the set of clauses that fail ---- *)
Violated(q, els, p) ==
  LET n == q.n
      E(k) == Env(q, k, els[k].x1, els[k].x2, els[k].y, els[k].u, p, els[k].h)
      init == (q.pin[1] => PEval(els[1].x1, 0) = q.x0[1]) /\ (q.pin[2] => PEval(els[1].x2, 0) = q.x0[2]) /\ PEval(els[1].xc, 0) = 0
      ini == \A c \in Range(q.hi) : PEval(Val(c, E(1)), 0) = 0
      cont == \A k \in 1..(n - 1) : LET z == End(q, els[k])
                IN z.x1 = PEval(els[k + 1].x1, 0) /\ z.x2 = PEval(els[k + 1].x2, 0) /\ (IF q.sum THEN 0 ELSE z.xc) = PEval(els[k + 1].xc, 0)
      dyn == \A k \in 1..n : PDer(els[k].x1) = Val(q.ode1, E(k)) /\ PDer(els[k].x2) = Val(q.ode2, E(k)) /\ PDer(els[k].xc) = Lval(q, E(k))
      alg == q.hasy => \A k \in 1..n : els[k].y = Val(q.alg, E(k))
      xbd == \A k \in 1..n : In(q.xb[1], els[k].x1, StatePts(q)) /\ In(q.xb[2], els[k].x2, StatePts(q))
      xfb == Within(End(q, els[n]).x1, q.xb[1]) /\ Within(End(q, els[n]).x2, q.xb[2])
      ybd == \A k \in 1..n : In(q.yb, els[k].y, AlgPts(q))
      ubd == \A k \in 1..n : \A i \in 1..2 : In(q.ub[i], els[k].u[i], CtrlPts(q))
      dub == \A k \in 1..n : \A i \in 1..2 :
               LET now == PEval(els[k].u[i], 0)
                   before == IF k > 1 THEN PEval(els[k - 1].u[i], 0) ELSE q.last[i]
               IN (q.dc = 1 /\ (k > 1 \/ q.last[i] # INF)) => Within(now - before, q.dub[i])
      hbd == \A k \in 1..n : \A i \in Range(q.hopt) : Within(els[k].h[i], q.hb[i])
      pbd == \A i \in Range(q.popt) : Within(p[i], q.pb[i])
      gok(c) == \A k \in 1..n : \A s \in Range(GPts(q, c.w)) :
                  LET v == PEval(Val(c.e, E(k)), s) IN IF c.k = "eq" THEN v = 0 ELSE v <= 0
      fin == \A c \in Range(q.hf) : PEval(Val(c, E(n)), q.dt) = 0
      stat == \A c \in Range(q.h) : PEval(Val(c, E(1)), 0) = 0
  IN { c \in {"init", "cont", "dyn", "alg", "xbd", "ybd", "ubd", "dub", "hbd", "pbd", "g", "fin", "stat", "ini"} :
       ~ CASE c = "init" -> init [] c = "cont" -> cont [] c = "dyn" -> dyn [] c = "alg" -> alg [] c = "xbd" -> xbd /\ xfb
           [] c = "ybd" -> ybd [] c = "ubd" -> ubd [] c = "dub" -> dub [] c = "hbd" -> hbd [] c = "pbd" -> pbd
           [] c = "g" -> (\A i \in DOMAIN q.g : gok(q.g[i])) [] c = "fin" -> fin [] c = "stat" -> stat [] c = "ini" -> ini }

(* J = V(x(t_f), p) + integral of L + sum of S at the element ends *)
Cost(q, els, p) ==
  LET E(k) == Env(q, k, els[k].x1, els[k].x2, els[k].y, els[k].u, p, els[k].h)
      s(k) == PEval(Val(q.S, E(k)), q.dt)
      l(k) == End(q, els[k]).xc
  IN PEval(Val(q.V, E(q.n)), q.dt) + (IF q.sum THEN SumTo(l, q.n) ELSE End(q, els[q.n]).xc) + SumTo(s, q.n)

(* the transcription represents the trajectory exactly only up to its degree *)
Representable(q, el) ==
  q.sch = "ms" \/ (Deg(el.x1) <= q.deg /\ Deg(el.x2) <= q.deg /\ Deg(el.xc) <= q.deg /\ Deg(el.y) <= q.deg - 1)

(* ---- transitions: the trajectory grows by one element ---- *)
VARIABLES q, par, els, broken
vars == <<q, par, els, broken>>
CONSTANTS Problems, Us, Hs, Ps, WithFaults
Init == q \in Problems /\ par \in Ps /\ els = <<>> /\ broken = FALSE
Start == IF els = <<>> THEN [x1 |-> q.x0[1], x2 |-> q.x0[2], xc |-> 0] ELSE [End(q, els[Len(els)]) EXCEPT !.xc = IF q.sum THEN 0 ELSE @]
Pieces == IF q.dc = 1 THEN { <<Const(w[1][1]), Const(w[2][1])>> : w \in Us } ELSE { <<Lin(w[1][1], w[1][2]), Lin(w[2][1], w[2][2])>> : w \in Us }
Extend(u, h, flt) ==
  /\ Len(els) < q.n
  /\ (flt.f = "none" \/ (WithFaults /\ ~broken))
  /\ els' = Append(els, Element(q, Len(els) + 1, Start, u, par, h, flt))
  /\ broken' = (broken \/ flt.f # "none")
  /\ UNCHANGED <<q, par>>
Next == \E u \in Pieces, h \in Hs, flt \in Faults(q) : Extend(u, h, flt)
Spec == Init /\ [][Next]_vars
Done == Len(els) = q.n

(* ---- checked on the specification ---- *)
(* integration by construction meets the equations by definition *)
Sound == (Done /\ ~broken) => Violated(q, els, par) \cap {"init", "cont", "dyn", "alg"} = {}
(* every fault is visible *)
Visible == (Done /\ broken /\ q.pin = <<TRUE, TRUE>>) => Violated(q, els, par) \cap {"init", "cont", "dyn", "alg"} # {}
AllRep == \A i \in DOMAIN els : Representable(q, els[i])
=============================================================================
