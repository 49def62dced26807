------------------------------ MODULE DataSet ------------------------------
(* Time dependent data storage: DataSet and SimulationResult.                 *)
(* A data set maps entry names to entries; an entry is a size, one name per   *)
(* row, a plot style and a sequence of points (time, column of values).       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Pick(_)   \* every choice (model checking) or one random choice (walks)

VARIABLES ds,    \* the data sets, by number
          ctr,   \* every inserted value is fresh, so that points keep an identity
          log
vars == <<ds, ctr, log>>

Range(s) == { s[i] : i \in DOMAIN s }
Restrict(f, S) == [ x \in S |-> f[x] ]
Put(f, k, v) == [ x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x] ]
ANY == -1      \* size not yet known: the first data decides

DefaultNames(e, n) == [ i \in 1..n |-> e \o "_" \o ToString(i - 1) ]
Entry(size, names, style) == [size |-> size, names |-> names, style |-> style, pts |-> <<>>]

(* ------------------------------------------------------------------ sorting *)
(* chronological, and points with the same time keep their order *)
RECURSIVE Insert(_, _)
Insert(s, p) == IF s = <<>> THEN <<p>>
                ELSE IF s[Len(s)].t <= p.t THEN Append(s, p)
                ELSE Append(Insert(SubSeq(s, 1, Len(s) - 1), p), s[Len(s)])
RECURSIVE SortFrom(_, _, _)
SortFrom(s, i, acc) == IF i > Len(s) THEN acc ELSE SortFrom(s, i + 1, Insert(acc, s[i]))
Sorted(s) == SortFrom(s, 1, <<>>)
IsSorted(s) == \A i \in 1..(Len(s) - 1) : s[i].t <= s[i + 1].t

SortEntries(d, E) == [d EXCEPT !.en = [ e \in DOMAIN d.en |-> IF e \in E THEN [d.en[e] EXCEPT !.pts = Sorted(@)] ELSE d.en[e] ]]

(* ------------------------------------------------------------------- extend *)
Clash(a, b) == \E e \in DOMAIN a.en \cap DOMAIN b.en : a.en[e].size # b.en[e].size
Merge(a, b) ==
  LET en == [ e \in DOMAIN a.en \cup DOMAIN b.en |->
       IF e \notin DOMAIN b.en THEN a.en[e]
       ELSE IF e \notin DOMAIN a.en THEN b.en[e]
       ELSE [a.en[e] EXCEPT !.pts = a.en[e].pts \o b.en[e].pts] ]
  IN SortEntries([a EXCEPT !.en = en,
       !.t0 = IF b.t0 < a.t0 THEN b.t0 ELSE a.t0,
       !.tf = IF b.tf > a.tf THEN b.tf ELSE a.tf,
       !.fe = a.fe + b.fe], DOMAIN en)

(* ------------------------------------------------------------ derived views *)
Times(en) == { en.pts[i].t : i \in DOMAIN en.pts }
Unique(en) == Cardinality(Times(en)) = Len(en.pts)
(* the table of a data set: one row per time of any entry, one column per named row of an entry *)
Cells(d) == UNION { { [t |-> d.en[e].pts[i].t, e |-> e, n |-> d.en[e].names[r], v |-> d.en[e].pts[i].v[r]] :
                       i \in DOMAIN d.en[e].pts, r \in DOMAIN d.en[e].names } : e \in DOMAIN d.en }
Framable(d) == \A e \in DOMAIN d.en : Unique(d.en[e]) /\ d.en[e].size # ANY

(* what a plot shows: the selected rows of an entry with all points *)
Item(en, it) == CASE it.k = "idx" -> IF it.i < en.size THEN <<it.i + 1>> ELSE <<>>
                  [] it.k = "re"  -> SelectSeq([ i \in 1..Len(en.names) |-> i ], LAMBDA i : en.names[i] \in it.s)
                  [] it.k = "name" -> SelectSeq([ i \in 1..Len(en.names) |-> i ], LAMBDA i : en.names[i] = it.n)
                  [] it.k = "all" -> [ i \in 1..en.size |-> i ]
RECURSIVE Rows(_, _, _)
Rows(en, items, i) == IF i > Len(items) THEN <<>> ELSE Item(en, items[i]) \o Rows(en, items, i + 1)
Lines(d, sel) == [ e \in DOMAIN sel |-> LET rows == Rows(d.en[e], sel[e], 1) IN
   [ k \in DOMAIN rows |-> [label |-> d.en[e].names[rows[k]], style |-> d.en[e].style,
                            pts |-> [ i \in DOMAIN d.en[e].pts |-> <<d.en[e].pts[i].t, d.en[e].pts[i].v[rows[k]]>> ]] ] ]
(* a plot request names existing entries and existing rows *)
ValidSel(d, sel, exact) == \A e \in DOMAIN sel : /\ e \in DOMAIN d.en
                                                 /\ \A i \in DOMAIN sel[e] : Item(d.en[e], sel[e][i]) # <<>> 

(* ------------------------------------------------------------------- actions *)
Log(op, out, val) == log' = Append(log, [op |-> op, out |-> out, val |-> val])
NoVal == [none |-> TRUE]

Create(d, e, size, names, style) ==
  LET nm == IF names = <<"default">> THEN DefaultNames(e, size) ELSE names IN
  /\ ds' = [ds EXCEPT ![d].en = Put(@, e, Entry(size, nm, style))]
  /\ UNCHANGED ctr
  /\ Log([op |-> "create", d |-> d, e |-> e, size |-> size, names |-> names, style |-> style], "ok", NoVal)

(* rows of values for n points, all fresh *)
Fresh(n, rows) == [ i \in 1..n |-> [ r \in 1..rows |-> ctr + (i - 1) * rows + r ] ]
InsertData(d, e, ts, ncol, rows, form) ==
  LET cols == Fresh(ncol, rows)
      op == [op |-> "insert", d |-> d, e |-> e, ts |-> ts, cols |-> cols, rows |-> rows, form |-> form]
      ok == /\ e \in DOMAIN ds[d].en
            /\ Len(ts) = ncol
            /\ (ncol = 0 \/ ds[d].en[e].size \in {ANY, rows})
  IN /\ ctr' = ctr + ncol * rows
     /\ IF ok
        THEN /\ ds' = [ds EXCEPT ![d].en[e].pts = @ \o [ i \in 1..ncol |-> [t |-> ts[i], v |-> cols[i]] ], ![d].en[e].size = IF ncol = 0 THEN @ ELSE rows]
             /\ Log(op, "ok", NoVal)
        ELSE UNCHANGED ds /\ Log(op, "rejected", NoVal)

SortOp(d, E) ==
  LET op == [op |-> "sort", d |-> d, es |-> E] IN
  IF E \subseteq DOMAIN ds[d].en
  THEN /\ ds' = [ds EXCEPT ![d] = SortEntries(@, IF E = {} THEN DOMAIN ds[d].en ELSE E)]
       /\ UNCHANGED ctr /\ Log(op, "ok", NoVal)
  ELSE UNCHANGED <<ds, ctr>> /\ Log(op, "rejected", NoVal)

Extend(a, b) ==
  LET op == [op |-> "extend", d |-> a, o |-> b] IN
  /\ UNCHANGED ctr
  /\ IF Clash(ds[a], ds[b]) THEN UNCHANGED ds /\ Log(op, "rejected", NoVal)
     ELSE ds' = [ds EXCEPT ![a] = Merge(ds[a], ds[b])] /\ Log(op, "ok", NoVal)

(* a copy is independent: later operations on either leave the other alone *)
Copy(a, b) == /\ ds' = [ds EXCEPT ![b] = ds[a]] /\ UNCHANGED ctr
              /\ Log([op |-> "copy", d |-> a, o |-> b], "ok", NoVal)
Save(a, b) == /\ ds' = [ds EXCEPT ![b] = ds[a]] /\ UNCHANGED ctr
              /\ Log([op |-> "save", d |-> a, o |-> b], "ok", NoVal)
(* the user edits a stored value in place *)
Poke(d, e, i, r) ==
  /\ ds' = [ds EXCEPT ![d].en[e].pts[i].v[r] = ctr + 1] /\ ctr' = ctr + 1
  /\ Log([op |-> "poke", d |-> d, e |-> e, i |-> i, r |-> r, v |-> ctr + 1], "ok", NoVal)
Rename(d, e, r, n) ==
  /\ ds' = [ds EXCEPT ![d].en[e].names[r] = n] /\ UNCHANGED ctr
  /\ Log([op |-> "rename", d |-> d, e |-> e, r |-> r, n |-> n], "ok", NoVal)
(* a list of selections, one figure each, on top of nfig figures of the caller *)
Plot(d, sels, exact, nfig, form) ==
  /\ UNCHANGED <<ds, ctr>>
  /\ LET op == [op |-> "plot", d |-> d, sels |-> sels, exact |-> exact, nfig |-> nfig, form |-> form] IN
     IF \A k \in DOMAIN sels : ValidSel(ds[d], sels[k], exact)
     THEN Log(op, "ok", [lines |-> [ k \in DOMAIN sels |-> Lines(ds[d], sels[k]) ]])
     ELSE Log(op, "rejected", NoVal)

(* ---------------------------------------------------------------- invariants *)
EntryOK(en) == /\ en.size # ANY => (Len(en.names) = en.size /\ \A i \in DOMAIN en.pts : Len(en.pts[i].v) = en.size)
               /\ en.size = ANY => en.pts = <<>>
Shapes == \A d \in DOMAIN ds : \A e \in DOMAIN ds[d].en : EntryOK(ds[d].en[e])
(* no operation loses, duplicates or alters points, except that a whole entry is replaced *)
Kept(a, b) == \A e \in DOMAIN a.en : Range(a.en[e].pts) \subseteq Range(b.en[e].pts)
LastOp == log[Len(log)].op
MergeKeeps == \A a, b \in DOMAIN ds : ~Clash(ds[a], ds[b]) =>
   LET m == Merge(ds[a], ds[b]) IN /\ Kept(ds[a], m) /\ Kept(ds[b], m)
                                   /\ \A e \in DOMAIN m.en : IsSorted(m.en[e].pts)
                                   /\ \A e \in DOMAIN m.en : Len(m.en[e].pts) = (IF e \in DOMAIN ds[a].en THEN Len(ds[a].en[e].pts) ELSE 0)
                                        + (IF e \in DOMAIN ds[b].en THEN Len(ds[b].en[e].pts) ELSE 0)
SortIdem == \A d \in DOMAIN ds : \A e \in DOMAIN ds[d].en : Sorted(Sorted(ds[d].en[e].pts)) = Sorted(ds[d].en[e].pts)
RejectedChangesNothing == [][ (log' # log /\ log'[Len(log')].out = "rejected") => ds' = ds ]_vars
OnlyNamedChange == [][ log' # log => \A d \in DOMAIN ds : d \notin {log'[Len(log')].op.d} \cup (IF log'[Len(log')].op.op \in {"copy", "save"} THEN {log'[Len(log')].op.o} ELSE {}) => ds'[d] = ds[d] ]_vars
=============================================================================
