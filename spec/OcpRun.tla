------------------------------- MODULE OcpRun -------------------------------
(* OptimalControlProblem.simulate and create_quadratic_cost                 *)
(* (yaocptool/modelling/ocp.py).  A simulation of the problem is the        *)
(* simulation of its model over the problem's horizon, cut in equal         *)
(* elements; every argument that is given overrides the problem's own data. *)
EXTENDS Simulation

Own(given, dflt) == IF given.has THEN given.v ELSE dflt
(* the request the model receives *)
Resolve(o, a) ==
  LET t0 == Own(a.t0, o.t0)
      tf == Own(a.tf, o.tf)
      n == a.n
  IN [fam |-> o.fam, t0 |-> t0, x0 |-> Own(a.x0, o.x0),
      grid |-> IF a.grid # <<>> THEN a.grid ELSE IF n = 0 THEN <<tf>> ELSE [k \in 1..n |-> t0 + (k * (tf - t0)) \div n],
      uform |-> "dm", us |-> <<Own(a.u, o.u)>>, p |-> o.p,
      ths |-> [k \in 1..8 |-> o.th], scalar |-> FALSE, integ |-> "default"]
Divides(o, a) == a.n = 0 \/ (Own(a.tf, o.tf) - Own(a.t0, o.t0)) % a.n = 0

(* quadratic objective; every entry of the dictionary is optional, a missing reference is zero *)
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Quad(v, M) == LET n == Len(v) IN SumTo([i \in 1..n |-> SumTo([j \in 1..n |-> v[i] * M[i][j] * v[j]], n)], n)
Minus(a, b) == [i \in 1..Len(a) |-> a[i] - b[i]]
LCost(o, x, u) == (IF o.Q # <<>> THEN Quad(Minus(x, o.xref), o.Q) ELSE 0) + (IF o.R # <<>> THEN Quad(Minus(u, o.uref), o.R) ELSE 0)
VCost(o, x) == (IF o.Qv # <<>> THEN Quad(Minus(x, o.xref), o.Qv) ELSE 0) + (IF o.Rv # <<>> THEN Quad(x, o.Rv) ELSE 0)
(* at the reference the cost is zero (unless Rv pulls to the origin) *)
ZeroAtReference(o) == LCost(o, o.xref, o.uref) = 0 /\ (o.Rv = <<>> => VCost(o, o.xref) = 0)
=============================================================================
