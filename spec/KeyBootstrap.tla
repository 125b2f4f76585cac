------------------------------- MODULE KeyBootstrap -------------------------------
(* What may happen around the keys of the login cookies: instances start, die and are *)
(* asked for logins while the API server works, fails before or after taking effect,  *)
(* or the instance dies at its request. What the adapter has to answer is judged by   *)
(* Trace_CookieKeys; this module only says what can happen.                           *)
EXTENDS Naturals, FiniteSets, Sequences, TLC, Json
VARIABLES up, secret, pend
vars == <<up, secret, pend>>
Instances == {"a", "b"}
Outages == {"get", "create", "lost", "all", "mixed"}
Deaths == {"die-get", "died-get", "die-create", "died-create"}
Faults == {"ok"} \union Outages \union Deaths
Init == up = {} /\ secret = "none" /\ pend = 0
(* what is known about the secret once an instance tried to set up its keys *)
After(f) == IF secret # "none" THEN secret ELSE IF f \in {"create", "all", "die-get", "died-get", "die-create"} THEN "none" ELSE IF f \in {"ok", "get", "died-create", "lost"} THEN "stored" ELSE "unknown"
More == IF pend = 2 THEN 2 ELSE pend + 1
Act(a) == PrintT("@@" \o ToJson([from |-> [up |-> up, secret |-> secret, pend |-> pend], act |-> a, to |-> [up |-> up', secret |-> secret', pend |-> pend']]))
Start(i, f) == i \notin up /\ up' = (IF f \in Deaths THEN up ELSE up \union {i}) /\ secret' = After(f) /\ pend' = pend /\ Act(<<"start", i, f>>)
StartBoth(f) == up = {} /\ f \notin Deaths /\ up' = Instances /\ secret' = After(f) /\ pend' = pend /\ Act(<<"startboth", f>>)
Login(i, f) == i \in up /\ pend' = More /\ secret' = After(f) /\ up' = (IF f \in Deaths THEN up \ {i} ELSE up) /\ Act(<<"login", i, f>>)
Burst(f) == up # {} /\ f \notin Deaths /\ pend' = 2 /\ secret' = After(f) /\ up' = up /\ Act(<<"burst", f>>)
Finish(i, f) == i \in up /\ pend > 0 /\ f \notin Deaths /\ pend' = pend - 1 /\ secret' = secret /\ up' = up /\ Act(<<"finish", i, f>>)
Kill(i) == i \in up /\ up' = up \ {i} /\ UNCHANGED <<secret, pend>> /\ Act(<<"kill", i>>)
Admin == up = {} /\ secret = "none" /\ secret' = "stored" /\ UNCHANGED <<up, pend>> /\ Act(<<"admin">>)
Next == Admin \/ (\E f \in Faults : StartBoth(f) \/ Burst(f) \/ \E i \in Instances : Start(i, f) \/ Login(i, f) \/ Finish(i, f)) \/ \E i \in Instances : Kill(i)
Spec == Init /\ [][Next]_vars
Export == PrintT("##" \o ToJson([state |-> [up |-> up, secret |-> secret, pend |-> pend]]))
===================================================================================
