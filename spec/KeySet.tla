-------------------------------- MODULE KeySet --------------------------------
(* The keys held for one provider (C08): what the provider publishes, whether   *)
(* its key endpoint works, and what was obtained by the last successful fetch.  *)
EXTENDS Naturals, FiniteSets, Sequences, TLC, Json

CONSTANTS Kids, Keys          \* key ids; key pairs
None == "none"
FailModes == {"500", "404", "garbage", "nokeys", "nullkeys", "drop", "empty"}
VARIABLES pub,      \* [Kids -> Keys \union {None}]: published
          mode,     \* "ok", "fail": how the key endpoint answers
          held,     \* [Kids -> Keys \union {None}]: held by the adapter
          act
vars == <<pub, mode, held, act>>

Init == /\ pub = [k \in Kids |-> None] /\ mode = "ok" /\ held = [k \in Kids |-> None] /\ act = <<"init">>

Publish(k, key) == pub[k] # key /\ pub' = [pub EXCEPT ![k] = key] /\ UNCHANGED <<mode, held>> /\ act' = <<"publish", k, key>>
SetMode(m) == mode # m /\ mode' = m /\ UNCHANGED <<pub, held>> /\ act' = <<"mode", m>>

(* a token signed with a key under a key id is used: the keys are fetched if    *)
(* none is held under that id                                                   *)
AfterFetch == IF mode = "ok" THEN pub ELSE held
Use(k, key) ==
  /\ held' = IF held[k] = None THEN AfterFetch ELSE held
  /\ act' = <<"use", k, key, IF held'[k] = key THEN "accept" ELSE "reject">>
  /\ UNCHANGED <<pub, mode>>
Next == \/ \E k \in Kids, key \in Keys \union {None} : Publish(k, key)
        \/ \E m \in {"ok", "fail"} : SetMode(m)
        \/ \E k \in Kids, key \in Keys : Use(k, key)
Spec == Init /\ [][Next]_vars
View == <<pub, mode, held>>

(* ---- the property ----------------------------------------------------------- *)
Used == act'[1] = "use"
NewKeyAccepted == [][(Used /\ held[act'[2]] = None /\ mode = "ok" /\ pub[act'[2]] = act'[3]) => act'[4] = "accept"]_vars
HeldKeyAccepted == [][(Used /\ held[act'[2]] = act'[3]) => act'[4] = "accept"]_vars
FailureCostsNothing == [][mode = "fail" => held' = held]_vars
FetchReplaces == [][held' # held => held' = pub]_vars
NeverUnpublished == [][(Used /\ act'[4] = "accept") => act'[3] \in {held[act'[2]], pub[act'[2]]}]_vars

Abs == [pub |-> pub, mode |-> mode, held |-> held]
AbsNext == [pub |-> pub', mode |-> mode', held |-> held']
EmitStep == PrintT("@@" \o ToJson([from |-> Abs, act |-> act', to |-> AbsNext]))
EmitState == PrintT("##" \o ToJson([state |-> Abs, probe |-> <<>>]))
===============================================================================
