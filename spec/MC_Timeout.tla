----------------------------- MODULE MC_Timeout -----------------------------
EXTENDS Timeout
CONSTANTS D, Len_
VARIABLES st, log
vars == <<st, log>>
Every(S) == S
One(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
Pick(S) == S
Op(n) == [op |-> n, s |-> 0, r |-> TRUE, o |-> 0, d |-> 0, k |-> ""]
Step(op, s2) == st' = s2 /\ log' = Append(log, [op |-> op, see |-> See(s2)])
Fresh == [st EXCEPT !.exc = None]
(* a new limit object is entered at once, or one that ran before is used again *)
Secs == IF Len_ <= 4 THEN {4, 12} ELSE {0, 4, 6, 8, 12, 15, 20, 32}
Room == Len(st.stack) < 5
NewSecs == {s \in Secs : s = 0 \/ Clear(st, st.now + s)}
Spare == {o \in 1..Len(st.objs) : o \notin Running(st) /\ (st.objs[o].secs = 0 \/ Clear(st, st.now + st.objs[o].secs))}
Times == {d \in (IF Len_ <= 4 THEN {3, 5, 17} ELSE {1, 2, 3, 5, 6, 9, 13, 17, 22}) : Clear(st, st.now + d)}
EnterNew == \E s \in Pick(NewSecs), r \in Pick(BOOLEAN) :
  Step([Op("enter") EXCEPT !.s = s, !.r = r, !.o = Len(st.objs) + 1], DoEnter(DoNew(Fresh, s, r), Len(st.objs) + 1))
EnterOld == \E o \in Pick(Spare) :
  Step([Op("enter") EXCEPT !.s = st.objs[o].secs, !.r = st.objs[o].raises, !.o = o], DoEnter(Fresh, o))
Work_ == \E d \in Pick(Times) : Step([Op("work") EXCEPT !.d = d], Work(Fresh, st.now + d))
Leave == Step(Op("leave"), Pop(Fresh))
Try == \E k \in Pick({"catch", "wrap", "swap"}) : Step([Op("try") EXCEPT !.k = k], DoTry(Fresh, k))
Raise == \E k \in Pick({"value", "timeout"}) : Step([Op("raise") EXCEPT !.k = k], DoRaise(Fresh, k))
Alarm == \E d \in Pick(IF Len_ <= 4 THEN {10} ELSE {2, 7, 15, 26}) : Step([Op("alarm") EXCEPT !.d = d], DoAlarm(Fresh, d))
Init == st \in {Empty(a) : a \in (IF Len_ <= 4 THEN {"count"} ELSE {"count", "ignore", "default"})} /\ log = <<>>
Ways == IF Len_ <= 4 THEN {1, 3, 4, 6, 7, 8, 9} ELSE 1..13
Can(t) == CASE t \in {1, 2} -> Room /\ Len(st.objs) < 5 /\ NewSecs # {} [] t = 3 -> Room /\ Spare # {} [] t = 6 -> st.stack # <<>>
            [] t \in {7, 12} -> Room [] t = 8 -> TRUE [] t = 9 -> st.app = "count" /\ Running(st) = {} /\ st.alarm = 0 [] OTHER -> Times # {}
Next == TLCGet("level") <= D /\ \E t \in Pick({t \in Ways : Can(t)}) :
  CASE t \in {1, 2} -> EnterNew [] t = 3 -> EnterOld [] t = 6 -> Leave [] t \in {7, 12} -> Try [] t = 8 -> Raise [] t = 9 -> Alarm [] OTHER -> Work_
Spec == Init /\ [][Next]_vars
Good == TypeOK(st) /\ InForce(st)
Emit == (Len(log) = Len_ /\ log # <<>>) => PrintT(ToJson(log))
EmitEnd == (TLCGet("level") = Len_) => PrintT(ToJson(log))
View_ == <<st>>
=============================================================================
