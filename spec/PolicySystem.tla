----------------------------- MODULE PolicySystem -----------------------------
(* The live resources and the decisions that follow from them, nothing else.  *)
(* A policy's contents is one of a fixed list of versions, each a set of      *)
(* entries; entries of version v of policy p name the configuration p-v.      *)
EXTENDS Resolution, TLC, Json

CONSTANTS Policies,      \* names of policies (strings)
          NumVersions,   \* versions 1..NumVersions of those below
          Paths, Methods \* probed requests

VARIABLES live,          \* [Policies -> 0..NumVersions], 0: does not exist
          act            \* the last action (history, hidden by VIEW)

E(svc, k, p, m) == [svc |-> svc, kind |-> k, path |-> p, method |-> m]

VersionEntries(v) ==
  CASE v = 0 -> {}
    [] v = 1 -> { E("s", "prefix", <<>>, "ALL") }
    [] v = 2 -> { E("s", "exact", <<"a">>, "ALL"), E("s", "prefix", <<"a">>, "GET") }
    [] v = 3 -> { E("s", "exact", <<"a">>, "GET"), E("s", "exact", <<"b">>, "ALL") }
    [] v = 4 -> { E("s", "prefix", <<"a">>, "ALL"), E("s", "exact", <<"a", "b">>, "POST") }
    [] v = 5 -> { E("t", "exact", <<"a">>, "ALL"), E("s", "prefix", <<"a", "b">>, "GET") }
    [] v = 6 -> { E("s", "exact", <<"a">>, "ALL"), E("s", "prefix", <<"a">>, "GET") }   \* as 2, other configuration
    [] v = 7 -> {}                                                                       \* a policy without targets
    [] OTHER -> {}

EntriesOf(l) == UNION { { [svc |-> e.svc, kind |-> e.kind, path |-> e.path, method |-> e.method, owner |-> p, ver |-> l[p]]
                          : e \in VersionEntries(l[p]) } : p \in Policies }

ServiceEntries(l, s) == { e \in EntriesOf(l) : e.svc = s }

Requests == [svc : {"s"}, path : Paths, method : Methods] \union [svc : {"t"}, path : { <<"a">>, <<"a", "b">> }, method : Methods]

(* who may decide a request *)
Decision(l, r) == { <<e.owner, e.ver>> : e \in Deciders(ServiceEntries(l, r.svc), r) }

Init == live = [p \in Policies |-> 0] /\ act = <<"init">>

Change(p, v) == /\ live[p] # v
                /\ live' = [live EXCEPT ![p] = v]
                /\ act' = <<IF live[p] = 0 THEN "create" ELSE IF v = 0 THEN "delete" ELSE "update", p, v>>

Next == \E p \in Policies, v \in 0..NumVersions : Change(p, v)
Spec == Init /\ [][Next]_<<live, act>>
View == live

(* changing one policy never takes protection away that another one gives *)
OthersKeepProtecting ==
  [][\A p \in Policies : live'[p] # live[p] =>
       \A r \in Requests :
         (\E e \in ServiceEntries(live, r.svc) : e.owner # p /\ Covers(e, r)) => Decision(live', r) # {}]_<<live, act>>
(* what decides is always listed by a live policy *)
OnlyLiveDecide == \A r \in Requests : \A d \in Decision(live, r) : live[d[1]] = d[2] /\ d[2] # 0
(* a change is invisible wherever neither version of the changed policy decides *)
Locality ==
  [][\A p \in Policies : live'[p] # live[p] =>
       \A r \in Requests :
         (\A d \in Decision(live, r) \union Decision(live', r) : d[1] # p) => Decision(live, r) = Decision(live', r)]_<<live, act>>

(***************************************************************************)
(* Behaviours for the code: every transition, and the decisions in every   *)
(* state                                                                   *)
(***************************************************************************)
Abs(l) == [p \in Policies |-> l[p]]
Probe(l) == { [svc |-> r.svc, path |-> PathText(r.path), method |-> r.method,
               allow |-> { d[1] \o "-" \o ToString(d[2]) : d \in Decision(l, r) }] : r \in Requests }
EmitStep == PrintT("@@" \o ToJson([from |-> Abs(live), act |-> act', to |-> Abs(live')]))
EmitState == PrintT("##" \o ToJson([state |-> Abs(live), probe |-> Probe(live)]))
EmitVersions == PrintT("%%" \o ToJson([v \in 1..NumVersions |->
                  { [svc |-> e.svc, kind |-> e.kind, text |-> EntryText(e.kind, e.path, 0), method |-> e.method] : e \in VersionEntries(v) }]))
===============================================================================
