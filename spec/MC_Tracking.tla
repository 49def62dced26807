---------------------------- MODULE MC_Tracking -----------------------------
EXTENDS Tracking, Json, TLC
CONSTANT Ns
NoB == <<-INF, INF>>
Probs == { [n |-> n, dt |-> dt, t0 |-> t0, x0 |-> x0, h |-> h, p1 |-> p1, w |-> w, ub |-> ub, dub |-> dub, last |-> l, pb |-> <<-1, 2>>] :
   n \in Ns, dt \in {1}, t0 \in {0, 2}, x0 \in {1}, h \in [1..3 -> {-1, 1, 2}], p1 \in {-1, 1}, w \in {1, 4},
   ub \in {NoB, <<-1, 1>>}, dub \in {NoB, <<-1, 1>>, <<-2, 1>>}, l \in {INF, 0} }
Pick == { p \in Probs : (\A k \in (p.n + 1)..3 : p.h[k] = 1) /\ (p.last # INF => p.dub # NoB) /\ (p.t0 = 2 <=> p.w = 4) /\ (\A k \in 1..p.n : p.h[k] + p.p1 \in -3..3) }
Emit == LET q == prob IN PrintT(ToJson([q |-> q, u |-> Best(q), p2 |-> P2(q), v |-> Value(q), x |-> [k \in 1..q.n |-> X(q, Best(q), k)]]))
=============================================================================
