------------------------------- MODULE RefreshRace -----------------------------
(* One session whose tokens have expired, requests that refresh it at the same   *)
(* moment, and a logout in between (C11, C12). The provider's answers to the     *)
(* refresh requests are released one by one.                                     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS N                   \* concurrent refreshing requests
R == 1..N
Old == 0                      \* the expired tokens
VARIABLES live,               \* the session was not logged out
          cur,                \* the tokens the session may hold: Old, or those of a refresh
          pc,                 \* of the requests: "idle", "waiting" at the provider, "done"
          failed,             \* a refresh was refused: that may have ended the session
          act
vars == <<live, cur, pc, failed, act>>
View == <<live, cur, pc, failed>>
Init == live = TRUE /\ failed = FALSE /\ cur = {Old} /\ pc = [i \in R |-> "idle"] /\ act = <<"init">>

Expired == cur = {Old}
Pass == IF failed THEN "open" ELSE "pass"
(* requests are interchangeable: they begin in order *)
MayBegin(i) == pc[i] = "idle" /\ \A j \in R : j < i => pc[j] # "idle"
(* a request begins: it waits for the provider if the tokens have expired *)
Begin(i) == /\ MayBegin(i) /\ live /\ Expired
            /\ pc' = [pc EXCEPT ![i] = "waiting"] /\ act' = <<"begin", i, IF failed THEN "open" ELSE "wait">> /\ UNCHANGED <<live, cur, failed>>
(* the provider answers it *)
Answer(i, ok) ==
  /\ pc[i] = "waiting" /\ pc' = [pc EXCEPT ![i] = "done"]
  /\ act' = <<"answer", i, ok, IF live /\ ok THEN Pass ELSE "login">>
  (* the session holds the new tokens, unless others were obtained before *)
  /\ cur' = IF live /\ ok THEN (IF Expired THEN {i} ELSE cur \union {i}) ELSE cur
  /\ failed' = (failed \/ ~ok)
  /\ UNCHANGED live
Logout == live /\ live' = FALSE /\ act' = <<"logout">> /\ UNCHANGED <<cur, pc, failed>>
(* any later request *)
Visit == /\ ~(live /\ Expired)
         /\ act' = <<"visit", IF live THEN Pass ELSE "login">>
         /\ UNCHANGED <<live, cur, pc, failed>>
Next == Logout \/ Visit \/ \E i \in R : Begin(i) \/ \E ok \in BOOLEAN : Answer(i, ok)
Spec == Init /\ [][Next]_vars

NothingPassesAfterLogout == [][~live => (live' = FALSE /\ (act'[1] \in {"answer", "visit"} => act'[Len(act')] = "login"))]_vars
NeverExpiredTokens == [][(act'[1] = "visit" /\ act'[2] # "login") => Old \notin cur]_vars

Abs == [live |-> live, cur |-> cur, pc |-> pc, failed |-> failed]
AbsNext == [live |-> live', cur |-> cur', pc |-> pc', failed |-> failed']
EmitStep == PrintT("@@" \o ToJson([from |-> Abs, act |-> act', to |-> AbsNext]))
EmitState == PrintT("##" \o ToJson([state |-> Abs, probe |-> <<>>]))
===============================================================================
