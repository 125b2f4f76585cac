----------------------------- MODULE Trace_KeySet -----------------------------
(* Recorded uses of tokens against the property. Each line of the trace is one   *)
(* history; every use carries the number of key requests the provider saw, so    *)
(* that the keys held are known without assuming when the adapter fetches.       *)
EXTENDS Naturals, FiniteSets, Sequences, TLC, Json, IOUtils
None == "none"
Histories == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, i, pub, mode, held, why
vars == <<h, i, pub, mode, held, why>>
Ids == {"kid1", "kid2", "kid3"}
Init == h \in 1..Len(Histories) /\ i = 1 /\ pub = [k \in Ids |-> None] /\ mode = "ok" /\ held = [k \in Ids |-> None] /\ why = ""
Ev == Histories[h][i]
(* what the use may show, given what is held, published, and whether a fetch succeeded *)
After == IF Ev.fetches > 0 /\ mode = "ok" THEN pub ELSE held
Judge ==
  LET k == Ev.kid  key == Ev.key  a == After
  IN  CASE Ev.outcome = "accept" /\ a[k] # key /\ held[k] # key -> "accepted a token signed by a key that is not held"
        [] Ev.outcome = "reject" /\ a[k] = key -> "rejected a token signed by a key that is held"
        [] Ev.outcome = "reject" /\ held[k] = None /\ mode = "ok" /\ pub[k] = key -> "rejected a token signed by a newly published key"
        [] Ev.outcome \notin {"accept", "reject"} -> "unexpected answer"
        [] OTHER -> ""
Step ==
  /\ why = "" /\ i <= Len(Histories[h]) /\ i' = i + 1 /\ h' = h
  /\ CASE Ev.op = "publish" -> pub' = [pub EXCEPT ![Ev.kid] = Ev.key] /\ UNCHANGED <<mode, held, why>>
       [] Ev.op = "mode" -> mode' = Ev.mode /\ UNCHANGED <<pub, held, why>>
       [] Ev.op = "use" -> held' = After /\ why' = Judge /\ UNCHANGED <<pub, mode>>
Spec == Init /\ [][Step]_vars
Explained == IF why = "" THEN TRUE
             ELSE PrintT("TRACE-REJECTED " \o ToJson([history |-> h, event |-> i - 1, why |-> why, events |-> SubSeq(Histories[h], IF i > 14 THEN i - 14 ELSE 1, i - 1)])) /\ FALSE
===============================================================================
