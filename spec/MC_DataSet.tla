----------------------------- MODULE MC_DataSet -----------------------------
EXTENDS DataSet, Json
CONSTANTS Kind, Len_, D

Ents == IF Kind = "sim" THEN {"x", "y", "u", "a"} ELSE {"a", "b", "x"}
Blank(kind, t0, tf, fe) == [kind |-> kind, t0 |-> t0, tf |-> tf, fe |-> fe,
   en |-> IF kind = "data" THEN [e \in {} |-> Entry(1, <<"?">>, "plot")]
          ELSE [e \in {"x", "y", "u"} |-> CASE e = "x" -> Entry(2, <<"x_0", "x_1">>, "plot")
                                            [] e = "y" -> Entry(1, <<"yn">>, "plot")
                                            [] e = "u" -> Entry(1, <<"u_0">>, "plot")]]
Init == /\ ds = IF Kind = "sim" THEN <<Blank("sim", 0, 3, 2), Blank("sim", 3, 5, 4)>> ELSE <<Blank("data", 0, 0, 0), Blank("data", 0, 0, 0)>>
        /\ ctr = 0 /\ log = <<>>

Small == D > 0
SizeS == IF Kind = "sim" THEN {1, 2} ELSE {1, 2, 3}
(* (a name that occurs inside another is not a pattern for it: patterns are matched from the beginning) *)
NamesFor(n) == {<<"default">>} \cup (IF n = ANY THEN {} ELSE {[i \in 1..n |-> <<"p", "qp", "sq">>[i]]})
TimeSeqs(a, b, c, d, e) == IF Small THEN {<<1>>, <<2, 0>>} ELSE {<<a>>, <<a, b>>, <<a, b, c>>, <<a, b, c, d>>, <<a, b, c, d, e>>,
   <<a, a>>, <<b, a, b>>, <<>>}
Tm == IF Small THEN {0} ELSE 0..30
Styles == {"plot", "step"}
Forms(ts) == IF ts = <<>> THEN {"DM"} ELSE IF Len(ts) = 1 THEN {"float", "list", "DM", "int"} ELSE {"list", "DM"}
FormsQ(ts) == IF Small THEN {"DM"} ELSE Forms(ts)
Ent(d) == DOMAIN ds[d].en
Sizes(d, e) == IF e \in Ent(d) THEN (IF ds[d].en[e].size = ANY THEN Len(ds[d].en[e].names) ELSE ds[d].en[e].size) ELSE 1
NameSet(d, e) == Range(ds[d].en[e].names)
Nonempty(d) == { e \in Ent(d) : ds[d].en[e].pts # <<>> /\ Unique(ds[d].en[e]) /\ ds[d].en[e].size > 0 /\ Cardinality(NameSet(d, e)) = ds[d].en[e].size }
Items(d, e, exact) == {[k |-> "idx", i |-> 0], [k |-> "idx", i |-> ds[d].en[e].size - 1]}
     \cup {[k |-> "name", n |-> n] : n \in NameSet(d, e)}
     \cup (IF exact THEN {} ELSE {[k |-> "re", s |-> S] : S \in SUBSET NameSet(d, e) \ {{}}})
Sels(d, e, exact) == {<<[k |-> "all"]>>} \cup { <<i>> : i \in Items(d, e, exact) } \cup { <<i, j>> : i \in Items(d, e, exact), j \in Items(d, e, exact) }
     \cup { <<[k |-> "name", n |-> "zz"], i>> : i \in Items(d, e, exact) }
SelOne(d, exact) == UNION { { (e :> s) : s \in Pick(Sels(d, e, exact)) } : e \in Nonempty(d) }
SelTwo(d, exact) == UNION { { (e :> s) @@ (f :> r) : s \in Pick(Sels(d, e, exact)), r \in Pick(Sels(d, f, exact)) } : e \in Nonempty(d), f \in Nonempty(d) }
SelBad(d) == {("nosuch" :> <<[k |-> "all"]>>)}

DoCreate == \E d \in Pick({1, 2}) : \E e \in Pick(IF Kind = "sim" THEN {"a", "x"} ELSE Ents) : \E n \in Pick(SizeS \cup {ANY}) : \E s \in Pick(Styles) :
   LET nm == IF n = ANY THEN <<"k", "l">> ELSE CHOOSE x \in Pick(NamesFor(n)) : TRUE IN
   IF Kind = "sim" /\ e = "x" THEN Create(d, e, n, IF n = ANY THEN <<"k", "l">> ELSE <<"default">>, "plot") ELSE Create(d, e, n, nm, s)
DoInsert == \E d \in Pick({1, 2}) : \E w \in Pick(IF Small THEN {0} ELSE 0..8) : \E e \in Pick(IF w = 0 \/ Ent(d) = {} THEN Ents ELSE Ent(d)) : \E t1 \in Pick(Tm), t2 \in Pick(Tm), t3 \in Pick(Tm), t4 \in Pick(Tm), t5 \in Pick(Tm) : \E ts \in Pick(TimeSeqs(t1, t2, t3, t4, t5)) : \E f \in Pick(FormsQ(ts)) :
   \E kind \in Pick(IF Small THEN {"ok", "cols", "rows"} ELSE {"ok", "ok1", "ok2", "ok3", "ok4", "ok5", "cols", "rows"}) :
     InsertData(d, e, ts, IF kind = "cols" THEN Len(ts) + 1 ELSE Len(ts), IF kind = "rows" /\ ts # <<>> /\ (e \in Ent(d) => ds[d].en[e].size # ANY) THEN Sizes(d, e) + 1 ELSE Sizes(d, e), f)
DoSort == \E d \in Pick({1, 2}) : \E E \in Pick(SUBSET Ent(d) \cup {{"nosuch"}}) : SortOp(d, E)
Big == \E d \in {1, 2} : \E e \in Ent(d) : Len(ds[d].en[e].pts) > 12
DoExtend == IF Big /\ ~Small THEN DoCreate ELSE \E a \in Pick({1, 2}) : \E n \in Pick(1..4) : Extend(a, IF n = 1 THEN a ELSE 3 - a)
DoCopy == \E a \in Pick({1, 2}) : \E n \in Pick({1, 2}) : IF n = 1 THEN Save(a, 3 - a) ELSE Copy(a, 3 - a)
DoPoke == \E d \in Pick({1, 2}) : \E e \in Pick({ x \in Ent(d) : ds[d].en[x].pts # <<>> /\ ds[d].en[x].size > 0 }) :
   \E i \in Pick(DOMAIN ds[d].en[e].pts), r \in Pick(1..ds[d].en[e].size) : Poke(d, e, i, r)
DoRename == \E d \in Pick({1, 2}) : \E e \in Pick({ x \in Ent(d) : Len(ds[d].en[x].names) > 0 }) : \E r \in Pick(1..Len(ds[d].en[e].names)) : Rename(d, e, r, "r" \o ToString(ctr) \o "n")
SelK(d, x, n) == IF Nonempty(d) = {} \/ n = 0 THEN SelBad(d) ELSE IF n <= 6 THEN SelOne(d, x) ELSE SelTwo(d, x)
DoPlot == \E d \in Pick(IF \E c \in {1, 2} : Nonempty(c) # {} THEN { c \in {1, 2} : Nonempty(c) # {} } ELSE {1, 2}) : \E x \in Pick(BOOLEAN) : \E nf \in Pick(0..2) : \E f \in Pick({"star", "list"}) :
   \E k \in Pick(1..3) : \E n1 \in Pick(0..12), n2 \in Pick(0..12), n3 \in Pick(0..12) :
   \E s1 \in Pick(SelK(d, x, n1)) : \E s2 \in Pick(SelK(d, x, n2)) : \E s3 \in Pick(SelK(d, x, n3)) :
     Plot(d, SubSeq(<<s1, s2, s3>>, 1, k), x, nf, f)
AllSel(e) == (e :> <<[k |-> "all"]>>)
DoPlotAll == \E d \in Pick({1, 2}) : \E f \in Pick({"all", "default"}) : \E x \in Pick(BOOLEAN) :
   IF {"x", "y", "u"} \subseteq Nonempty(d) THEN Plot(d, <<AllSel("x"), AllSel("y"), AllSel("u")>>, x, 0, f) ELSE DoExtend
HasPts == \E d \in {1, 2} : \E e \in Ent(d) : ds[d].en[e].pts # <<>> /\ ds[d].en[e].size > 0

Walk == \E w \in Pick(IF TLCGet("level") <= 4 /\ Kind = "data" THEN {1} ELSE 1..20) :
   CASE w = 1 -> DoCreate
     [] w \in 2..9 -> DoInsert
     [] w \in 10..11 -> DoSort
     [] w \in 12..13 -> DoExtend
     [] w = 14 -> DoCopy
     [] w = 15 -> IF \A d \in {1, 2} : \E e \in Ent(d) : ds[d].en[e].pts # <<>> /\ ds[d].en[e].size > 0 THEN DoPoke ELSE DoInsert
     [] w = 16 -> IF \A d \in {1, 2} : \E e \in Ent(d) : Len(ds[d].en[e].names) > 0 THEN DoRename ELSE DoCreate
     [] w = 17 -> DoExtend
     [] w = 18 -> DoSort
     [] w = 19 -> DoPlotAll
     [] OTHER -> IF HasPts THEN DoPlot ELSE DoInsert
Step == \/ \E d \in {1, 2}, e \in {"a", "x"}, n \in {1, 2, ANY} : Create(d, e, n, IF n = ANY THEN <<"k", "l">> ELSE <<"default">>, "step")
        \/ DoInsert \/ DoSort \/ DoExtend \/ \E a \in {1, 2} : Copy(a, 3 - a)
Next == IF Small THEN Step ELSE Walk
Spec == Init /\ [][Next]_vars
Every(S) == S
One(S) == {RandomElement(S)}
Depth == TLCGet("level") <= D
View == <<ds, ctr>>
Obs == [ d \in {1, 2} |-> [st |-> ds[d], cells |-> IF Framable(ds[d]) THEN Cells(ds[d]) ELSE {}, framable |-> Framable(ds[d])] ]
Emit == TLCGet("level") = Len_ => PrintT(ToJson([log |-> log, post |-> Obs]))
=============================================================================
