------------------------------- MODULE ClusterView --------------------------------
(* What requests find while the connection to the API server comes and goes (C18).    *)
(* Per kind of resource: how the connection is, and per namespace what exists and what *)
(* the adapter may be enforcing. Every namespace has one policy, one JWT and one OIDC  *)
(* configuration.                                                                      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS NS, Sampling
Kinds == {"policies", "jwtconfigs", "oidcconfigs"}
Versions == [policies |-> 4, jwtconfigs |-> 2, oidcconfigs |-> 2]
VARIABLES conn,         \* "up"; "cut": neither lists nor watches; "stalled": open, but nothing comes; "nowatch": lists only
          live, may,    \* [NS -> [Kinds -> version]], [NS -> [Kinds -> SUBSET versions]]
          blind,        \* the adapter was started while policies can not be listed: it has never known any
          act
vars == <<conn, live, may, blind, act>>
View == <<conn, live, may, blind>>
Init == /\ conn = [k \in Kinds |-> "up"]
        /\ live = [n \in NS |-> [k \in Kinds |-> 0]]
        /\ may = [n \in NS |-> [k \in Kinds |-> {0}]]
        /\ blind = FALSE /\ act = <<"init">>
(* the adapter may know, or not yet *)
Heard(k, c, m, vs) == CASE c = "up" -> vs [] c = "nowatch" -> m \union vs [] OTHER -> m
(* a change of one resource of kind k in each of the given namespaces: f says how *)
Change(k, f) ==
  /\ \E n \in NS : live[n][k] # f[n]
  /\ live' = [n \in NS |-> [live[n] EXCEPT ![k] = f[n]]]
  /\ may' = [n \in NS |-> [may[n] EXCEPT ![k] = Heard(k, conn[k], @, {f[n]})]]
  /\ act' = <<"change", k, f>> /\ UNCHANGED <<conn, blind>>
(* several changes at once: what is between may go unnoticed *)
Burst(k, f, g) ==
  /\ live' = [n \in NS |-> [live[n] EXCEPT ![k] = g[n]]]
  /\ may' = [n \in NS |-> [may[n] EXCEPT ![k] = IF conn[k] = "up" THEN {g[n]} ELSE Heard(k, conn[k], @, {f[n], g[n]})]]
  /\ act' = <<"burst", k, f, g>> /\ UNCHANGED <<conn, blind>>
Fault(k, c) == conn[k] = "up" /\ conn' = [conn EXCEPT ![k] = c] /\ act' = <<"fault", k, c>> /\ UNCHANGED <<live, may, blind>>
(* the watches break while there are changes; old changes may be compacted *)
Flap(k, f, how) ==
  /\ conn[k] = "up" /\ UNCHANGED <<conn, blind>>
  /\ live' = [n \in NS |-> [live[n] EXCEPT ![k] = f[n]]]
  /\ may' = [n \in NS |-> [may[n] EXCEPT ![k] = {f[n]}]]
  /\ act' = <<"flap", k, f, how>>
Recover(k, compacted) ==
  /\ conn[k] # "up" /\ conn' = [conn EXCEPT ![k] = "up"]
  /\ may' = [n \in NS |-> [may[n] EXCEPT ![k] = {live[n][k]}]]
  /\ blind' = (blind /\ k # "policies") /\ act' = <<"recover", k, compacted>> /\ UNCHANGED live
(* what is known already is told again *)
Repeat(k) == conn[k] = "up" /\ act' = <<"repeat", k>> /\ UNCHANGED <<conn, live, may, blind>>
(* the adapter is killed and started again *)
Restart ==
  /\ may' = [n \in NS |-> [k \in Kinds |-> IF conn[k] = "cut" THEN {0} ELSE {live[n][k]}]]
  /\ blind' = (conn["policies"] = "cut")
  /\ act' = <<"restart", "-">> /\ UNCHANGED <<conn, live>>

Maps(k) == [NS -> 0..Versions[k]]
Pick(S) == IF Sampling THEN {RandomElement(S)} ELSE S
Hows == {"drop", "compact", "error"}
Next == \E k \in Pick(Kinds) :
          \/ \E f \in Pick(Maps(k)) : Change(k, f)
          \/ \E f \in Pick(Maps(k)), g \in Pick(Maps(k)) : Burst(k, f, g)
          \/ \E c \in Pick({"cut", "stalled", "nowatch"}) : Fault(k, c)
          \/ \E f \in Pick(Maps(k)), h \in Pick(Hows) : Flap(k, f, h)
          \/ \E b \in Pick(BOOLEAN) : Recover(k, b)
          \/ Repeat(k)
          \/ Restart
Spec == Init /\ [][Next]_vars

(* ---- requests ---- *)
Paths == {"/x", "/y"}
Creds == {"none", "token1", "token2"}
Decides(p, path) == CASE p = 1 -> "jwt" [] p = 2 -> "oidc" [] p = 3 -> (IF path = "/x" THEN "jwt" ELSE "none") [] p = 4 -> (IF path = "/x" THEN "oidc" ELSE "jwt") [] OTHER -> "none"
Outcome(p, j, o, path, cred) ==
  CASE Decides(p, path) = "none" -> "ok"
    [] Decides(p, path) = "jwt" -> IF j # 0 /\ cred = "token" \o ToString(j) THEN "ok" ELSE "deny"
    [] OTHER -> IF o = 0 THEN "deny" ELSE "login" \o ToString(o)
(* An adapter that has never known the policies lets nothing through that they protect. *)
Outcomes(n, path, cred) == IF blind THEN {"deny"} \union (IF Decides(live[n]["policies"], path) = "none" THEN {"ok"} ELSE {}) ELSE { Outcome(p, j, o, path, cred) : p \in may[n]["policies"], j \in may[n]["jwtconfigs"], o \in may[n]["oidcconfigs"] }
(* ---- the property ---- *)
Exactly == \A n \in NS : (\A k \in Kinds : conn[k] = "up") => \A k \in Kinds : may[n][k] = {live[n][k]}
KeepsWhileDown == [][act'[1] # "restart" => \A k \in Kinds : (conn[k] \in {"cut", "stalled"} /\ conn'[k] = conn[k]) => \A n \in NS : may'[n][k] = may[n][k]]_vars
ForgetsOldOnRecovery == [][\A k \in Kinds : (conn[k] # "up" /\ conn'[k] = "up") => \A n \in NS : may'[n][k] = {live'[n][k]}]_vars
ClosedAtFirst == \A n \in NS, path \in Paths, cred \in Creds :
  (blind /\ Decides(live[n]["policies"], path) # "none") => Outcomes(n, path, cred) = {"deny"}
Determined == \A n \in NS, path \in Paths, cred \in Creds : (~blind /\ \A k \in Kinds : conn[k] # "nowatch") => Cardinality(Outcomes(n, path, cred)) = 1
===================================================================================
