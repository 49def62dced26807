------------------------------ MODULE LoopRun ------------------------------
(* Closed loop with the optimum of the optimiser known: the plant x' = u, the *)
(* controller minimises the sum of (u - (r - x))^2 over its horizon with the  *)
(* estimated x as a parameter, bounds on u and limits on its moves, counted   *)
(* from the control the plant has now.                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, X0s, U0s, Rs, Bounds, Moves
VARIABLES q, x, u, xs, us
vars == <<q, x, u, xs, us>>
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Clip(v, lo, hi) == Max(lo, Min(hi, v))
(* the target is the same on the whole horizon, so the first control goes as far towards it as it may *)
Optimal(state, last) == Clip(Clip(q.r - state, last - q.d, last + q.d), q.lo, q.hi)
Init == /\ \E a \in X0s, b \in U0s, r \in Rs, bd \in Bounds, d \in Moves, s \in {"coll", "ms"} :
             /\ bd[1] <= b /\ b <= bd[2]
             /\ q = [x0 |-> a, u0 |-> b, r |-> r, lo |-> bd[1], hi |-> bd[2], d |-> d, sch |-> s]
        /\ x = q.x0 /\ u = q.u0 /\ xs = <<q.x0>> /\ us = <<>>
Next == /\ Len(us) < N
        /\ u' = Optimal(x, u) /\ x' = x + u' /\ xs' = Append(xs, x') /\ us' = Append(us, u') /\ UNCHANGED q
Spec == Init /\ [][Next]_vars
Limits == \A i \in DOMAIN us : /\ q.lo <= us[i] /\ us[i] <= q.hi
                               /\ LET last == IF i = 1 THEN q.u0 ELSE us[i - 1] IN us[i] - last \in (-q.d)..q.d
(* no admissible control is nearer to the target *)
Nearest == \A i \in DOMAIN us : LET last == IF i = 1 THEN q.u0 ELSE us[i - 1]
                                    err(v) == IF v > q.r - xs[i] THEN v - (q.r - xs[i]) ELSE q.r - xs[i] - v IN
   \A v \in q.lo..q.hi : (v - last \in (-q.d)..q.d) => err(us[i]) <= err(v)
Emit == Len(us) = N => PrintT(ToJson([q |-> q, xs |-> xs, us |-> us]))
=============================================================================
