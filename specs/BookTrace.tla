------------------------------ MODULE BookTrace ------------------------------
(* Recorded runs of the program must be behaviours of Book.                 *)
EXTENDS Book, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
Progress == IOEnv.TRACE_PROGRESS = "1"
VARIABLES t, l
T == Traces[t]
Ev == T.events[l]
Init == t \in 1..Len(Traces) /\ l = 1 /\ BookInit

Project(e) == [arts |-> e.arts, content |-> T.content, conv |-> {T.conv[i] : i \in 1..Len(T.conv)}, proc |-> T.proc, math |-> T.math]
Next == /\ l <= Len(T.events) /\ l' = l + 1 /\ t' = t
        /\ CASE Ev.e = "start" -> Start(Project(Ev))
             [] Ev.e = "begin" -> Begin(S(Ev.k, Ev.n))
             [] Ev.e = "end" -> End(S(Ev.k, Ev.n), Ev.ok)
             [] Ev.e = "book" -> Assemble(Ev.chapters)
             [] Ev.e = "booked" -> Assembled(Ev.ok)
             [] Ev.e = "exit" -> Ev.msg = Ev.ok /\ Exit(Ev.ok)
             [] Ev.e = "kill" -> Kill
Report ==
    IF Progress THEN PrintT("@@" \o ToJson([Acc |-> t, L |-> l]))
    ELSE (l > Len(T.events)) => PrintT("@@" \o ToJson([Acc |-> t, L |-> l]))
=============================================================================
