------------------------------ MODULE MC_Groups ------------------------------
(* Graphs to colour (Recs empty), and the judgement of recorded groupings.  *)
EXTENDS Network, Json
CONSTANTS Recs, Sizes, Walks, Few
VARIABLE g
N(n) == 1..n
Graphs4 == SUBSET {e \in N(4) \X N(4) : e[1] # e[2]}
(* a random graph on n nodes: every possible edge is drawn with chance 1 in d *)
RandomGraph(n, d) == {e \in N(n) \X N(n) : e[1] # e[2] /\ RandomElement(1..d) = 1}
Init == IF Recs = <<>>
        THEN g \in {[n |-> 4, edges |-> E] : E \in Graphs4} \cup {[n |-> n, edges |-> RandomGraph(n, d)] : n \in Sizes, d \in {2, 3, 6}, i \in 1..Walks}
        ELSE g \in 1..Len(Recs)
Next == UNCHANGED g
Spec == Init /\ [][Next]_g
SetOf(s) == {s[i] : i \in 1..Len(s)}
(* Few: and no more groups than needed by the neighbours *)
Bad(r) == IF Few THEN ~GoodGroups(SetOf(r.nodes), SetOf(r.edges), r.groups) ELSE ~Parted(SetOf(r.nodes), SetOf(r.edges), r.groups)
Emit == IF Recs = <<>> THEN PrintT(ToJson(g)) ELSE (Bad(Recs[g]) => PrintT(ToJson(g)))
==============================================================================
