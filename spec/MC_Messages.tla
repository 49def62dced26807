----------------------------- MODULE MC_Messages -----------------------------
EXTENDS Messages
CONSTANTS D, Len_
VARIABLES msgs, log
vars == <<msgs, log>>
Every(S) == S
One(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
Pick(S) == S
S1(a) == E(Sym(a))
L(vs, a, k) == E(Rich(vs, a, k))
Contents == {
  <<S1("x")>>, <<L(<<"x", "y">>, 2, 1)>>, <<S1("x"), L(<<"x", "y">>, 3, 0), S1("y")>>,
  <<L(<<"p1", "p2">>, 2, 5), S1("p2"), S1("p1")>>, <<S1("y"), Inner(<<S1("x"), L(<<"x", "y">>, 2, 0)>>), L(<<"y", "z">>, 4, 1), S1("z")>>,
  <<E(Const(3)), L(<<"x">>, 2, 7)>>, <<Inner(<<S1("p1")>>), S1("p1"), Inner(<<L(<<"p1", "p2">>, 3, 2)>>), S1("p2")>>, <<>> }
Kinds == {"SX", "MX"}
Shapes == {"list", "dict", "vec", "mat"}
Step(op, m2, see) == msgs' = m2 /\ log' = Append(log, [op |-> op, see |-> see])
Dump == \E c \in Pick(Contents), k \in Pick(Kinds), f \in Pick(Shapes) :
          Step([op |-> "dump", m |-> c, k |-> k, f |-> f, i |-> 0], Append(msgs, [m |-> c, f |-> f]), <<>>)
(* read it here; or let another process read it and write it again, which makes a new message *)
Load == \E i \in Pick(1..Len(msgs)) : Step([op |-> "load", m |-> <<>>, k |-> "", f |-> "", i |-> i], msgs, <<View_(msgs[i].m, msgs[i].f)>>)
Relay == \E i \in Pick(1..Len(msgs)) : Step([op |-> "relay", m |-> <<>>, k |-> "", f |-> "", i |-> i], Append(msgs, msgs[i]), <<>>)
Restart == Step([op |-> "restart", m |-> <<>>, k |-> "", f |-> "", i |-> 0], msgs, <<>>)
Init == msgs = <<>> /\ log = <<>>
(* in walks every kind of step has the same chance *)
CanRestart == log # <<>> /\ log[Len(log)].op.op # "restart"
Next == TLCGet("level") <= D /\ \E t \in Pick(1..8) :
          IF msgs = <<>> \/ (t <= 3 /\ Len(msgs) < 8) THEN Dump ELSE IF t = 7 /\ Len(msgs) < 8 THEN Relay ELSE IF t = 8 /\ CanRestart THEN Restart ELSE Load
Spec == Init /\ [][Next]_vars
Emit == (Len(log) = Len_ /\ log # <<>> /\ log[Len(log)].op.op = "load") => PrintT(ToJson(log))
EmitEnd == (Len_ > 0 /\ TLCGet("level") = Len_) => PrintT(ToJson(log))
==============================================================================
