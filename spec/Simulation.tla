----------------------------- MODULE Simulation -----------------------------
(* Simulating a model over a grid: SystemModel.simulate, DAESystem.simulate *)
(* and SimulationResult (yaocptool/modelling/{system_model,dae_system,      *)
(* simulation_result}.py).                                                  *)
(*                                                                          *)
(* The family of systems has polynomial solutions, so that the trajectory   *)
(* is exact integer arithmetic (states are kept multiplied by 6):           *)
(*    x1' = 2 u1 + 3 p1 + 5 th1 + f t + 1                                   *)
(*    x2' = y + 7 u2,        y = x1 + 2 p2 + 3 th2 + 4                      *)
(* "ode" has y written out, "dae" keeps it as an algebraic variable, "par"  *)
(* is "dae" with u1 := w1 + 2 w2 + t + 2 th1, u2 := w2 + 3 p1 - th2 (a         *)
(* parametrized control), "feed" adds the feedback x1 + 2 y to u2 of "par",      *)
(* "plain" has no parameters and no thetas at all.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

HasP(fam) == fam # "plain"
HasY(fam) == fam \in {"dae", "par", "feed"}
Par(fam) == fam \in {"par", "feed"}
(* feedback gains of u2 *)
Fx(fam) == IF fam = "feed" THEN 1 ELSE 0
Fy(fam) == IF fam = "feed" THEN 2 ELSE 0
(* controls seen by the equations for given control parameters, at time t (the part free of t) *)
U1(fam, w, p, th) == IF Par(fam) THEN w[1] + 2 * w[2] + 2 * th[1] ELSE w[1]
U2(fam, w, p, th) == IF Par(fam) THEN w[2] + 3 * p[1] - th[2] ELSE w[2]
UT(fam) == IF Par(fam) THEN 1 ELSE 0
P1(fam, p) == IF HasP(fam) THEN p[1] ELSE 0
P2(fam, p) == IF HasP(fam) THEN p[2] ELSE 0
FT == 2

Drift1(fam, w, p, th) == 2 * U1(fam, w, p, th) + 3 * P1(fam, p) + 5 * P1(fam, th) + 1
Slope(fam) == FT + 2 * UT(fam)
ConstY(fam, p, th) == 2 * P2(fam, p) + 3 * P2(fam, th) + 4

(* flow of one element; x is 6 * state *)
Flow(fam, x, ta, tb, w, p, th) ==
  LET h == tb - ta
      c == Drift1(fam, w, p, th)
      f == Slope(fam)
      (* x2' = y + 7 u2 = g x1 + (1 + 7 Fy) ConstY + 7 U2 *)
      g == 1 + 7 * (Fx(fam) + Fy(fam))
  IN << x[1] + 6 * c * h + 3 * f * (tb * tb - ta * ta),
        x[2] + g * (x[1] * h + 3 * c * h * h + f * (tb * tb * tb - ta * ta * ta) - 3 * f * ta * ta * h)
             + 6 * (1 + 7 * Fy(fam)) * ConstY(fam, p, th) * h + 42 * U2(fam, w, p, th) * h >>
YAt(fam, x, p, th) == IF HasY(fam) THEN <<x[1] + 6 * ConstY(fam, p, th)>> ELSE <<>>
UAt(fam, x, t, w, p, th) == << 6 * (U1(fam, w, p, th) + UT(fam) * t),
                               6 * U2(fam, w, p, th) + Fx(fam) * x[1] + Fy(fam) * (x[1] + 6 * ConstY(fam, p, th)) >>

(* the run of one request: sim.k elements done, data so far *)
Start(r) == [k |-> 0, t |-> r.t0, x |-> r.x0, tx |-> <<r.t0>>, X |-> <<r.x0>>, tf |-> <<>>, Y |-> <<>>, U |-> <<>>,
             status |-> "run"]
WAt(r, k) == IF r.uform = "dict" THEN r.us[k] ELSE r.us[1]
ThAt(r, k) == r.ths[k]
Element(r, s) ==
  LET k == s.k + 1
      tb == r.grid[k]
      x == Flow(r.fam, s.x, s.t, tb, WAt(r, k), r.p, ThAt(r, k))
  IN [s EXCEPT !.k = k, !.t = tb, !.x = x, !.tx = Append(@, tb), !.X = Append(@, x), !.tf = Append(@, tb),
               !.Y = Append(@, YAt(r.fam, x, r.p, ThAt(r, k))), !.U = Append(@, UAt(r.fam, x, tb, WAt(r, k), r.p, ThAt(r, k))),
               !.status = IF k = Len(r.grid) THEN "done" ELSE "run"]
(* a zero-length element, or per-element controls that do not match the grid, are refused *)
Refused(r) == \/ \E k \in 1..Len(r.grid) : r.grid[k] = (IF k = 1 THEN r.t0 ELSE r.grid[k - 1])
              \/ r.uform = "dict" /\ Len(r.grid) > 1 /\ Len(r.us) # Len(r.grid)
RECURSIVE RunFrom(_, _)
RunFrom(r, s) == IF s.status = "done" THEN s ELSE RunFrom(r, Element(r, s))
Run(r) == RunFrom(r, Start(r))

(* what the result object must show *)
Result(r, s) == [tx |-> s.tx, x |-> s.X, ty |-> s.tf, y |-> s.Y, u |-> s.U, t0 |-> r.t0, tf |-> r.grid[Len(r.grid)],
                 elements |-> Len(r.grid), final |-> [x |-> s.X[Len(s.X)], y |-> s.Y[Len(s.Y)], u |-> s.U[Len(s.U)]]]

(* ---- properties of the design ---- *)
(* simulating in two requests, the second started from the end of the first, is the same as in one *)
Semigroup(r) == \A k \in 1..(Len(r.grid) - 1) :
  LET a == Run([r EXCEPT !.grid = SubSeq(r.grid, 1, k), !.us = IF r.uform = "dict" THEN SubSeq(@, 1, k) ELSE @,
                         !.ths = SubSeq(@, 1, k)])
      b == Run([r EXCEPT !.grid = SubSeq(r.grid, k + 1, Len(r.grid)), !.t0 = r.grid[k], !.x0 = a.x,
                         !.us = IF r.uform = "dict" THEN SubSeq(@, k + 1, Len(@)) ELSE @,
                         !.ths = SubSeq(@, k + 1, Len(@))])
  IN Run(r).X = a.X \o Tail(b.X) /\ Run(r).U = a.U \o b.U /\ Run(r).Y = a.Y \o b.Y
(* with constant inputs, refining the grid does not change the states at the common times *)
Refines(r) == (r.uform # "dict" /\ \A i \in 1..Len(r.ths) : r.ths[i] = r.ths[1]) =>
  LET whole == Run([r EXCEPT !.grid = <<r.grid[Len(r.grid)]>>]) IN whole.x = Run(r).x
=============================================================================
