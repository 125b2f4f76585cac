------------------------------- MODULE Trace_Linear -------------------------------
(* Histories of single objects (a policy, a configuration, a session) recorded while  *)
(* they changed and requests were answered concurrently. An observation names the     *)
(* contents that explain it: "is" some content, or "not" some content.                *)
EXTENDS Linear, Json, IOUtils
VARIABLES h, i
vars == <<w, lo, open, why, h, i>>
Histories == ndJsonDeserialize(IOEnv.TRACE)
Ev == Histories[h].events[i]
Init == JInit /\ h \in 1..Len(Histories) /\ i = 1
Explains(c) == IF Ev.kind = "is" THEN c = Ev.v ELSE IF Ev.kind = "not" THEN c # Ev.v ELSE FALSE
Step ==
  /\ why = "" /\ i <= Len(Histories[h].events) /\ i' = i + 1 /\ h' = h
  /\ CASE Ev.op = "write"   -> JWrite(Ev.v)
       [] Ev.op = "confirm" -> JConfirm(Ev.k)
       [] Ev.op = "begin"   -> JBegin(Ev.r)
       [] Ev.op = "end"     -> JEnd(Ev.r, Explains)
Spec == Init /\ [][Step]_vars
Explained == IF why = "" THEN TRUE
             ELSE PrintT("TRACE-REJECTED " \o ToJson([object |-> Histories[h].object, why |-> why, event |-> i - 1, earliest |-> lo,
                    versions |-> w, events |-> SubSeq(Histories[h].events, IF i > 12 THEN i - 12 ELSE 1, i - 1)])) /\ FALSE
===================================================================================
