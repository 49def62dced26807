------------------------------ MODULE Tracking ------------------------------
(* The optimum of small tracking problems, found by exhaustive search.        *)
(*   minimise  sum_k (u_k - r_k)^2 + (p2 - w)^2,   r_k = h1_k + p1            *)
(*   subject to bounds on u, on its increments and on the optimised p2.       *)
(* The optimum is a face of the polyhedron projected on: its coordinates are  *)
(* multiples of 1/6 for up to three elements, and the search runs over those. *)
EXTENDS Integers, Sequences, FiniteSetsExt
R == 6
INF == 1000000
Within(v, b) == R * b[1] <= v /\ v <= R * b[2]
Sq(v) == v * v
RECURSIVE CostU(_, _)
CostU(u, r) == IF u = <<>> THEN 0 ELSE Sq(Head(u) - R * Head(r)) + CostU(Tail(u), Tail(r))
Ok(q, u) == \A k \in DOMAIN u : Within(u[k], q.ub) /\
   (IF k = 1 THEN q.last = INF \/ Within(u[1] - R * q.last, q.dub) ELSE Within(u[k] - u[k - 1], q.dub))
Ref(q) == [k \in 1..q.n |-> q.h[k] + q.p1]
Grid == (-3 * R)..(3 * R)
Cands(q) == { u \in [1..q.n -> Grid] : Ok(q, u) }
Best(q) == LET r == Ref(q) c == Cands(q) m == Min({CostU(u, r) : u \in c}) IN CHOOSE u \in c : CostU(u, r) = m
Clip(v, b) == IF v < b[1] THEN b[1] ELSE IF v > b[2] THEN b[2] ELSE v
P2(q) == Clip(q.w, q.pb)
(* R*R times the optimal value *)
Value(q) == CostU(Best(q), Ref(q)) * q.dt + R * R * Sq(P2(q) - q.w)
RECURSIVE X(_, _, _)
X(q, u, k) == IF k = 0 THEN R * q.x0 ELSE X(q, u, k - 1) + q.dt * u[k]
VARIABLE prob
CONSTANT Problems
Init == prob \in Problems
Next == FALSE /\ prob' = prob
Spec == Init /\ [][Next]_prob
(* refused calls aside, a feasible problem has an optimum within its bounds *)
Optimal == LET q == prob IN Cands(q) # {} => (Ok(q, Best(q)) /\ (Ok(q, [k \in 1..q.n |-> R * Ref(q)[k]]) => \A k \in 1..q.n : Best(q)[k] = R * Ref(q)[k]))
=============================================================================
