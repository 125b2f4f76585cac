------------------------------ MODULE RefreshChain -----------------------------
(* The life of one session: its tokens expire, are refreshed, expire again (C12).*)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxRounds
(* the provider's answers to a refresh *)
Good == {"new", "same", "emptyrefresh", "opaque", "delayed"}
Bad == {"400", "401", "500", "503html", "drop", "garbage", "emptybody", "emptyobject", "array", "noaccess", "noid", "emptyid", "expiredaccess", "expiredid", "expiredboth",
        "badsigaccess", "badsigid", "wrongaud", "opaquerefused", "unknownkid", "oldtokens", "opaqueid", "none-alg"}
Which == {"access", "id", "both"}        \* which tokens are short-lived
Issues(a) == a \in {"new", "opaque", "delayed"}     \* a new refresh token comes with it
(* the new tokens are not valid: whether the old ID token may stay is left open *)
Verdict(a, which) == CASE a \in Good -> "pass"
                       [] a \in {"noid", "emptyid"} /\ which = "access" -> "open"
                       [] OTHER -> "login"

VARIABLES age, which, ref, failed, round, end, act
vars == <<age, which, ref, failed, round, end, act>>
View == <<age, which, ref, failed, round, end>>
(* ref: the generation of the refresh token the session has, 0 if it has none *)
Init == age = "none" /\ which = "both" /\ ref = 0 /\ failed = FALSE /\ round = 1 /\ end = FALSE /\ act = <<"init">>
Login == /\ age = "none" /\ age' = "fresh" /\ which' \in Which /\ ref' \in {0, 1} /\ act' = <<"login", which', ref'>> /\ UNCHANGED <<failed, round, end>>

Expire == /\ ~end /\ age = "fresh" /\ age' = "expired" /\ act' = <<"expire">> /\ UNCHANGED <<which, ref, failed, round, end>>
VisitFresh == /\ ~end /\ age = "fresh" /\ act' = <<"visit", "pass">> /\ UNCHANGED <<age, which, ref, failed, round, end>>
VisitNoRefresh == /\ ~end /\ age = "expired" /\ ref = 0 /\ act' = <<"visit", "login">> /\ UNCHANGED <<age, which, ref, failed, round, end>>
Refresh(a, w) ==
  /\ ~end /\ age = "expired" /\ ref > 0
  /\ LET v == Verdict(a, which)
     IN  /\ act' = <<"refresh", a, w, IF failed /\ v = "pass" THEN "open" ELSE v, ref>>
         /\ IF v = "pass" /\ ~failed
            THEN /\ round < MaxRounds /\ round' = round + 1
                 /\ age' = "fresh" /\ which' = w /\ ref' = IF Issues(a) THEN ref + 1 ELSE ref
                 /\ UNCHANGED <<failed, end>>
            ELSE (* a refresh that failed may have ended the session: then what follows is open *)
                 /\ failed' = TRUE /\ end' = (v # "login" \/ failed)
                 /\ UNCHANGED <<age, which, ref, round>>
Next == \/ Login \/ Expire \/ VisitFresh \/ VisitNoRefresh
        \/ \E a \in Good, w \in Which : Refresh(a, w)
        \/ \E a \in Bad : Refresh(a, "both")
Spec == Init /\ [][Next]_vars

(* a request with expired tokens passes only by a refresh with valid tokens, after which the session has the newest refresh token *)
ExpiredNeverPasses == [][age = "expired" /\ act'[1] = "visit" => act'[2] = "login"]_vars
BadNeverPasses == [][act'[1] = "refresh" /\ act'[4] = "pass" => act'[2] \in Good]_vars
RefreshKept == [][ref > 0 => ref' >= ref /\ ref' <= ref + 1]_vars

Abs == [age |-> age, which |-> which, ref |-> ref, failed |-> failed, round |-> round, end |-> end]
AbsNext == [age |-> age', which |-> which', ref |-> ref', failed |-> failed', round |-> round', end |-> end']
EmitStep == PrintT("@@" \o ToJson([from |-> Abs, act |-> act', to |-> AbsNext]))
EmitState == PrintT("##" \o ToJson([state |-> Abs, probe |-> <<>>]))
===============================================================================
