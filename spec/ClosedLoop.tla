----------------------------- MODULE ClosedLoop -----------------------------
(* Closed loop of MPC and PlantSimulation.  The plant integrates              *)
(*   x1' = u1 + pp,  x2' = u2 - 1,  y = x1 + 2 u2                             *)
(* with the control held between its samples; the optimiser and the noise are *)
(* the environment, which answers anything.                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Pick(_), Ts

VARIABLES q,     \* configuration
          pl,    \* plant: time, state, control, control function, measurement, samples
          mpc,   \* controller: iterations, warm start, estimator calls
          log
vars == <<q, pl, mpc, log>>
NONE == <<>>

(* ------------------------------------------------------------------- plant *)
(* a control function is u(t) = a + b (t - from), by component *)
FunAt(f, t) == [ i \in 1..2 |-> f.a[i] + f.b[i] * (t - f.from) ]
Drift(x, u, dt) == << x[1] + dt * (u[1] + q.pp), x[2] + dt * (u[2] - 1) >>
Alg(x, u) == << x[1] + 2 * u[2] >>
Meas(x, y) == LET z == <<x[1], x[2], y[1]>> IN
  [ r \in DOMAIN q.c |-> q.c[r][1] * z[1] + q.c[r][2] * z[2] + q.c[r][3] * z[3] ]
Add(a, b) == [ i \in DOMAIN a |-> a[i] + b[i] ]
Noise(v, n) == IF q.noise THEN [ i \in DOMAIN v |-> v[i] + n ] ELSE v

(* one sampling period: the control is sampled at the start of every sub-period and held *)
RECURSIVE Advance(_, _, _, _)
Advance(p, start, k, nz) ==
  IF k > Len(q.ss) THEN
     LET clean == Meas(p.x, p.y) IN
     [p EXCEPT !.meas = Noise(clean, nz), !.ms = Append(@, [t |-> p.t, m |-> Noise(clean, nz), w |-> clean])]
  ELSE LET u == IF p.fun = NONE THEN p.u ELSE FunAt(p.fun[1], p.t)
           t == start + q.ss[k]
           xs == Drift(p.x, u, t - p.t)
           x == Noise(xs, nz + k)
           y == Alg(xs, u)
       IN Advance([p EXCEPT !.t = t, !.u = u, !.x = x, !.y = y, !.sm = Append(@, [t |-> t, x |-> x, y |-> y, u |-> u])], start, k + 1, nz)
SetControl(p, u, nz) == Advance([p EXCEPT !.u = u, !.fun = NONE], p.t, 1, nz)
SetFunction(p, f, nz) == Advance([p EXCEPT !.fun = <<f>>], p.t, 1, nz)

(* ------------------------------------------------------------- controller *)
(* what the estimator returns at its k-th call: the measurement itself or anything *)
Estimate(k, m) == IF q.est = "ideal" THEN [x |-> SubSeq(m, 1, 2), cov |-> <<0, 0>>]
                  ELSE [x |-> <<3 * k + 1, -k>>, cov |-> <<k, 20 + k, 30 + k, 5 * k>>]   \* column major
State(est) == IF q.cost THEN Append(est.x, 0) ELSE est.x
Arrange(x) == IF q.rearr THEN [ i \in DOMAIN x |-> IF i = 1 THEN x[2] ELSE IF i = 2 THEN x[1] ELSE x[i] ] ELSE x
RECURSIVE Put(_, _, _, _)
Put(p, idx, v, k) == IF k > Len(idx) THEN p ELSE Put([p EXCEPT ![idx[k][2]] = v[idx[k][1]]], idx, v, k + 1)
Params(x, cov) == Put(Put(q.p, q.mean, x, 1), q.cov, cov, 1)
(* the warm start is the previous solution one element later, its last element repeated *)
Shift(els) == IF Len(els) = 1 THEN els ELSE Append(Tail(els), els[Len(els)])

(* one iteration; ans is the optimiser's answer: a tag and a control per element *)
Iterate(p, c, ans, nz) ==
  LET est == Estimate(c.k + 1, p.meas)
      x == State(est)
      call == [x0 |-> Arrange(x), p |-> Params(x, est.cov), last |-> p.u, guess |-> c.guess, seen |-> [t |-> p.t, m |-> p.meas, u |-> p.u]]
      u1 == [ i \in 1..2 |-> ans[1].a[i] + (IF q.hook THEN 1 ELSE 0) ]
      p2 == IF q.dc = 1 THEN SetControl(p, u1, nz) ELSE SetFunction(p, [a |-> ans[1].a, b |-> ans[1].b, from |-> p.t], nz)
  IN [p |-> p2, c |-> [c EXCEPT !.it = @ + 1, !.k = @ + 1, !.guess = Shift(ans), !.solves = @ + 1], call |-> call]
RECURSIVE RunFrom(_, _, _, _, _, _)
RunFrom(p, c, answers, nz, k, calls) ==
  IF k > Len(answers) THEN [p |-> p, c |-> c, calls |-> calls]
  ELSE LET r == Iterate(p, c, answers[k], nz + 10 * k) IN RunFrom(r.p, r.c, answers, nz, k + 1, Append(calls, r.call))
RECURSIVE FixedFrom(_, _, _, _, _, _)
FixedFrom(p, c, u, n, nz, withest) ==
  IF n = 0 THEN [p |-> p, c |-> c]
  ELSE FixedFrom(SetControl(p, u, nz), [c EXCEPT !.it = @ + 1, !.k = IF withest THEN @ + 1 ELSE @], u, n - 1, nz + 10, withest)

(* ------------------------------------------------------------------ actions *)
Plant0(qq) == LET y == <<qq.y0>>
                  z == <<qq.x0[1], qq.x0[2], qq.y0>>
                  m == [ r \in DOMAIN qq.c |-> qq.c[r][1] * z[1] + qq.c[r][2] * z[2] + qq.c[r][3] * z[3] ] IN
  [t |-> qq.t0, x |-> qq.x0, y |-> y, u |-> qq.u0, fun |-> NONE, meas |-> m,
   sm |-> << [t |-> qq.t0, x |-> qq.x0, y |-> y, u |-> qq.u0] >>, ms |-> << [t |-> qq.t0, m |-> m, w |-> m] >>]
Mpc0 == [it |-> 0, k |-> 0, guess |-> NONE, solves |-> 0]

Note(op, out, calls) == log' = Append(log, [op |-> op, out |-> out, calls |-> calls, meas |-> [t |-> pl'.t, m |-> pl'.meas, u |-> pl'.u],
                                             it |-> mpc'.it, solves |-> mpc'.solves])
DoSet(u, form, nz) == /\ pl' = SetControl(pl, u, nz) /\ UNCHANGED <<q, mpc>>
                      /\ Note([op |-> "set", u |-> u, form |-> form, nz |-> nz], "ok", <<>>)
DoBadSet(u) == UNCHANGED <<q, pl, mpc>> /\ Note([op |-> "set", u |-> u, form |-> "DM", nz |-> 0], "rejected", <<>>)
DoFun(a, b, nz) == LET f == [a |-> a, b |-> b, from |-> pl.t] IN
                   /\ pl' = SetFunction(pl, f, nz) /\ UNCHANGED <<q, mpc>>
                   /\ Note([op |-> "fun", f |-> f, nz |-> nz], "ok", <<>>)
DoRun(answers, nz, forever) == LET r == RunFrom(pl, mpc, answers, nz, 1, <<>>) IN
                   /\ pl' = r.p /\ mpc' = r.c /\ UNCHANGED q
                   /\ Note([op |-> "run", ans |-> answers, nz |-> nz, forever |-> forever], "ok", r.calls)
DoFixed(u, n, form, nz, withest) == LET r == FixedFrom(pl, mpc, u, n, nz, withest) IN
                   /\ pl' = r.p /\ mpc' = r.c /\ UNCHANGED q
                   /\ Note([op |-> "fixed", u |-> u, n |-> n, form |-> form, nz |-> nz, est |-> withest], "ok", <<>>)

(* --------------------------------------------------------------- invariants *)
Inc(s) == \A i \in 1..(Len(s) - 1) : s[i].t < s[i + 1].t
SamplesInOrder == Inc(pl.sm) /\ Inc(pl.ms)
LastSample == LET s == pl.sm[Len(pl.sm)] IN s.t = pl.t /\ s.x = pl.x /\ (Len(pl.sm) > 1 => s.u = pl.u)
MeasureEveryPeriod == \A i \in DOMAIN pl.ms : pl.ms[i].t = q.t0 + (i - 1) * Ts
SampleEverySub == Len(pl.sm) = 1 + Len(q.ss) * (Len(pl.ms) - 1)
(* the state moves as the control that is recorded with it says *)
Consistent == ~q.noise => \A i \in 2..Len(pl.sm) : pl.sm[i].x = Drift(pl.sm[i - 1].x, pl.sm[i].u, pl.sm[i].t - pl.sm[i - 1].t)
GuessIsPrevious == mpc.solves > 0 <=> mpc.guess # NONE
=============================================================================
