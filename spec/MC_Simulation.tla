---------------------------- MODULE MC_Simulation ----------------------------
EXTENDS Simulation, Json
CONSTANTS Grids, Starts
VARIABLES req, sim
vars == <<req, sim>>

Fams == {"ode", "dae", "par", "feed", "plain"}
Forms == {"dm", "list", "dict"}
Uval(k) == <<k, 3 - 2 * k>>
Thval(fam, k, same) == IF HasP(fam) THEN <<IF same THEN 2 ELSE 2 - k, k * (IF same THEN 0 ELSE 1)>> ELSE <<>>
Pval(fam) == IF HasP(fam) THEN <<2, -1>> ELSE <<>>
Reqs == { [fam |-> fam, t0 |-> t0, x0 |-> <<6 * 2, 6 * (-1)>>, grid |-> [i \in 1..Len(g) |-> t0 + g[i]],
           uform |-> uf, us |-> IF uf = "dict" THEN [k \in 1..(Len(g) + extra) |-> Uval(k)] ELSE <<Uval(1)>>,
           p |-> Pval(fam), ths |-> [k \in 1..Len(g) |-> Thval(fam, k, same)], scalar |-> sc, integ |-> it] :
          fam \in Fams, t0 \in Starts, g \in Grids, uf \in Forms, same \in BOOLEAN, sc \in BOOLEAN,
          extra \in {0, 1}, it \in {"implicit", "rk", "explicit", "collocation", "cvodes", "idas", "default"} }
(* combinations the library offers: a scalar final time only for one element; explicit methods only for odes;  *)
(* cvodes is an ode integrator                                                                                  *)
Offered(r) == /\ r.scalar => Len(r.grid) = 1
              /\ r.integ \in {"rk", "explicit", "cvodes"} => ~HasY(r.fam)
              /\ r.fam = "feed" => r.integ # "collocation"
              /\ (r.uform # "dict" /\ Len(r.us) > 1) => FALSE

Init == req \in {r \in Reqs : Offered(r)} /\ sim = (IF Refused(req) THEN [status |-> "rejected"] ELSE Start(req))
Next == sim.status = "run" /\ sim' = Element(req, sim) /\ UNCHANGED req
Spec == Init /\ [][Next]_vars
Emit == sim'.status = "done" => PrintT(ToJson([r |-> req, out |-> "ok", res |-> Result(req, sim')]))
EmitR == sim.status = "rejected" => PrintT(ToJson([r |-> req, out |-> "rejected"]))
Inv == /\ sim.status # "rejected" => Semigroup(req) /\ Refines(req)
       /\ sim.status \in {"run", "done"} => Len(sim.X) = sim.k + 1 /\ Len(sim.U) = sim.k /\ Len(sim.Y) = sim.k
=============================================================================
