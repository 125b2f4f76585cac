---------------------------- MODULE SessionValidity ----------------------------
(* A session passes only while its tokens are valid for the policy (C10): the    *)
(* signing key may be withdrawn, the policy's rules changed, the userinfo        *)
(* endpoint may stop vouching for an opaque access token.                        *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Kinds            \* of access tokens: "jwt", "opaque"
VARIABLES kind, key, rule, ui, live, act
vars == <<kind, key, rule, ui, live, act>>
View == <<kind, key, rule, ui, live>>

Init == kind \in Kinds /\ key = TRUE /\ rule = TRUE /\ ui = TRUE /\ live = "yes" /\ act = <<"init">>
Valid == key /\ rule /\ (kind = "opaque" => ui)

ToggleKey == key' = ~key /\ act' = <<"key", key'>> /\ UNCHANGED <<kind, rule, ui, live>>
ToggleRule == rule' = ~rule /\ act' = <<"rule", rule'>> /\ UNCHANGED <<kind, key, ui, live>>
ToggleUi == kind = "opaque" /\ ui' = ~ui /\ act' = <<"ui", ui'>> /\ UNCHANGED <<kind, key, rule, live>>
(* a session whose tokens are not valid may end when it is used *)
Visit == /\ act' = <<"visit", IF ~Valid THEN "login" ELSE IF live = "yes" THEN "pass" ELSE "any">>
         /\ live' = IF Valid THEN live ELSE "maybe"
         /\ UNCHANGED <<kind, key, rule, ui>>
Login == /\ act' = <<"login", IF Valid THEN "session" ELSE "reject">>
         /\ live' = IF Valid THEN "yes" ELSE live
         /\ UNCHANGED <<kind, key, rule, ui>>
Next == ToggleKey \/ ToggleRule \/ ToggleUi \/ Visit \/ Login
Spec == Init /\ [][Next]_vars

OnlyValidPasses == [][act'[1] = "visit" /\ act'[2] # "login" => key /\ rule /\ (kind = "opaque" => ui)]_vars
ValidPasses == [][act'[1] = "visit" /\ live = "yes" /\ key /\ rule /\ (kind = "opaque" => ui) => act'[2] = "pass"]_vars

Abs == [kind |-> kind, key |-> key, rule |-> rule, ui |-> ui, live |-> live]
AbsNext == [kind |-> kind', key |-> key', rule |-> rule', ui |-> ui', live |-> live']
EmitStep == PrintT("@@" \o ToJson([from |-> Abs, act |-> act', to |-> AbsNext]))
EmitState == PrintT("##" \o ToJson([state |-> Abs, probe |-> <<>>]))
===============================================================================
