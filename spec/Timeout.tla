------------------------------ MODULE Timeout -------------------------------
(* Time limits (yaocptool/util/timeout.py): a block of code that runs under *)
(* a limit is interrupted when the limit is reached, whatever blocks it is  *)
(* nested in or has nested in it, and whatever is raised and caught.        *)
(*                                                                          *)
(* Time is counted in quarters of a second.  A state:                       *)
(*  now    the time                                                         *)
(*  stack  the enclosing frames, outermost first: a limit, a "catch" (any   *)
(*         exception stops there), a "wrap" (raises another exception from  *)
(*         it) or a "swap" (raises an exception of its own instead)         *)
(*  app    what the application does with alarms: count them, ignore them,  *)
(*         or nothing                                                       *)
(*  objs   the limit objects: their time, whether they raise, whether they     *)
(*         timed out: "none" (has not run, or is running), "no", "yes"      *)
(*  alarm  the time at which an alarm of the application is due (0: none)   *)
(*  rang   how often the application's alarm went off                       *)
(*  exc    what became of the last exception: where it stopped, and what    *)
(*         it was                                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Never == 1000000
NoExc == [by |-> 0, kind |-> "", wraps |-> 0]
None == [at |-> "", by |-> 0, kind |-> "", wraps |-> 0]
Empty(a) == [now |-> 0, app |-> a, stack |-> <<>>, objs |-> <<>>, alarm |-> 0, rang |-> 0, exc |-> None]
Limit(o, due) == [k |-> "limit", o |-> o, due |-> due, fired |-> FALSE]
Frame(k) == [k |-> k, o |-> 0, due |-> Never, fired |-> FALSE]
Min2(a, b) == IF a < b THEN a ELSE b
IsLimit(f) == f.k = "limit"
Running(st) == {st.stack[i].o : i \in {i \in 1..Len(st.stack) : IsLimit(st.stack[i])}}
Dues(st) == {st.stack[i].due : i \in 1..Len(st.stack)} \cup {IF st.alarm = 0 THEN Never ELSE st.alarm}
NextDue(st) == CHOOSE d \in Dues(st) : \A e \in Dues(st) : d <= e

(* leaving a frame: a limit knows now whether it was reached *)
Pop(st) == LET f == st.stack[Len(st.stack)] IN
  [st EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1),
             !.objs = IF IsLimit(f) THEN [@ EXCEPT ![f.o].out = IF f.fired THEN "yes" ELSE "no"] ELSE @]
(* an exception passes outwards until something stops it *)
RECURSIVE Unwind(_, _)
Unwind(st, e) ==
  IF st.stack = <<>> THEN [st EXCEPT !.exc = [at |-> "top", by |-> e.by, kind |-> e.kind, wraps |-> e.wraps]]
  ELSE LET f == st.stack[Len(st.stack)] IN LET s2 == Pop(st) IN
       CASE f.k = "catch" -> [s2 EXCEPT !.exc = [at |-> "catch", by |-> e.by, kind |-> e.kind, wraps |-> e.wraps]]
         [] f.k = "wrap" -> Unwind(s2, [e EXCEPT !.wraps = @ + 1])
         [] f.k = "swap" -> Unwind(s2, [NoExc EXCEPT !.kind = "swap"])
         [] OTHER -> IF e.by = f.o /\ ~ st.objs[f.o].raises THEN s2 ELSE Unwind(s2, e)

(* time goes by, until the first limit: it interrupts; the application's alarm only rings *)
RECURSIVE Work(_, _)
Work(st, until) ==
  LET d == NextDue(st) IN
  IF d > until THEN [st EXCEPT !.now = until]
  ELSE IF d = st.alarm THEN Work([st EXCEPT !.now = d, !.alarm = 0, !.rang = @ + 1], until)
  ELSE LET i == CHOOSE i \in 1..Len(st.stack) : st.stack[i].due = d IN
       Unwind([st EXCEPT !.now = d, !.stack[i].due = Never, !.stack[i].fired = TRUE], [NoExc EXCEPT !.by = st.stack[i].o, !.kind = "limit"])

DoEnter(st, o) == LET s == st.objs[o].secs IN
  [st EXCEPT !.stack = Append(@, Limit(o, IF s = 0 THEN Never ELSE st.now + s)), !.objs[o].out = "none"]
DoNew(st, s, r) == [st EXCEPT !.objs = Append(@, [secs |-> s, raises |-> r, out |-> "none"])]
DoTry(st, k) == [st EXCEPT !.stack = Append(@, Frame(k))]
DoRaise(st, kind) == Unwind(st, [NoExc EXCEPT !.kind = kind])
DoAlarm(st, d) == [st EXCEPT !.alarm = st.now + d]

(* two limits at the same instant: which one interrupts is not specified *)
Clear(st, t) == t \notin Dues(st)

TypeOK(st) == /\ st.now >= 0
              /\ \A i \in 1..Len(st.objs) : st.objs[i].out \in {"none", "yes", "no"}
              /\ \A i \in 1..Len(st.stack) : st.stack[i].due = Never \/ st.stack[i].due > st.now
(* every running limit that was not reached is still in force; one that is not running has an outcome *)
InForce(st) == \A i \in 1..Len(st.stack) : IsLimit(st.stack[i]) =>
  (st.stack[i].fired \/ st.objs[st.stack[i].o].secs = 0) = (st.stack[i].due = Never)

See(st) == [now |-> st.now, app |-> st.app, depth |-> Len(st.stack), outs |-> [i \in 1..Len(st.objs) |-> IF i \in Running(st) THEN "-" ELSE st.objs[i].out], rang |-> st.rang, exc |-> st.exc,
            idle |-> IF Running(st) = {} THEN IF st.alarm = 0 THEN 0 ELSE st.alarm ELSE 0 - 1]
=============================================================================
