------------------------------- MODULE Credentials --------------------------------
(* Whom an OIDC configuration's credentials go to, and which (C21). One configuration *)
(* "o", another one "x" that is never changed, the secrets of their namespace, and a   *)
(* user who logs in and whose tokens expire.                                           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS KEEP,    \* the secret is read only when the client's id changes
          PLAIN,   \* the plain secret is preferred
          GIVEUP,  \* a failed read is not repeated
          BYID     \* clients are kept by their id

Provider == {"p1", "p2"}
Id == {"a", "b"}
Method == {"absent", "client_secret_basic", "client_secret_post"}
Ref == {"none", "s.k", "s.nokey", "t.k"}
Config == [prov : Provider, id : Id, method : Method, ref : Ref, plain : {"", "plain"}]
(* a secret's value under "k"; "gone": there is no such secret, "nokey": no such key *)
Value == [s |-> {"gone", "nokey", "", "s1", "s2"}, t |-> {"gone", "t1"}]
Other == [prov |-> "p2", id |-> "a", method |-> "client_secret_post", ref |-> "none", plain |-> "x"]

VARIABLES cfg, secrets, down, may, pend, sess, used, act
vars == <<cfg, secrets, down, may, pend, sess, used, act>>
None == [prov |-> "none"]

Found(ref, sec) == CASE ref = "s.k" /\ sec.s \notin {"gone", "nokey"} -> sec.s [] ref = "t.k" /\ sec.t # "gone" -> sec.t [] OTHER -> ""
Resolve(c, sec) == IF Found(c.ref, sec) # "" THEN Found(c.ref, sec) ELSE c.plain
How(c) == IF c.method = "client_secret_post" THEN "post" ELSE "basic"

(* what the adapter does: reads the secret when told of the configuration; failing: how often the read fails *)
Reads(c, failing) ==
  IF KEEP /\ cfg # None /\ cfg.id = c.id THEN used
  ELSE IF PLAIN /\ c.plain # "" THEN c.plain
  ELSE IF failing > IF GIVEUP THEN 0 ELSE 2 THEN c.plain
  ELSE Resolve(c, secrets)
Sends(c) == IF BYID /\ c.id = Other.id THEN Other.plain ELSE used

NoSess == [id |-> "none", fresh |-> FALSE, loose |-> FALSE]
Init == cfg = None /\ secrets \in [s : Value.s, t : Value.t] /\ down = FALSE /\ may = {} /\ pend = "none" /\ sess = NoSess /\ used = "" /\ act = [a |-> "init"]

(* how many reads fail while the configuration is taken in *)
Failing == IF down THEN {9} ELSE {0, 2}
Configure(c, n) ==
  /\ n \in Failing /\ cfg' = c
  /\ may' = {Resolve(c, secrets)} \union (IF n = 9 THEN {c.plain} ELSE {})
  /\ used' = Reads(c, n)
  /\ sess' = IF cfg # None /\ c # cfg THEN [sess EXCEPT !.loose = TRUE] ELSE sess
  /\ act' = [a |-> "configure", cfg |-> c, failing |-> n]
  /\ UNCHANGED <<secrets, down, pend>>
(* until told of the configuration again the adapter may or may not have noticed *)
Store(v) ==
  /\ v # secrets /\ secrets' = v
  /\ may' = IF cfg = None THEN may ELSE may \union {Resolve(cfg, v)} \union (IF down THEN {cfg.plain} ELSE {})
  /\ act' = [a |-> "store", secrets |-> v] /\ UNCHANGED <<cfg, down, pend, sess, used>>
Toggle == down' = ~down /\ act' = [a |-> IF down THEN "up" ELSE "down"] /\ may' = (IF cfg = None THEN may ELSE may \union {Resolve(cfg, secrets)}) /\ UNCHANGED <<cfg, secrets, pend, sess, used>>

(* requests; the token requests that follow: to whom, as whom, how, with any of which secrets *)
To(c, grant) == [prov |-> c.prov, id |-> c.id, how |-> How(c), grant |-> grant, secrets |-> may]
Begin == /\ cfg # None /\ pend' = cfg.id /\ act' = [a |-> "begin", prov |-> cfg.prov, id |-> cfg.id] /\ UNCHANGED <<cfg, secrets, down, may, sess, used>>
Callback ==
  /\ cfg # None /\ pend # "none" /\ pend' = "none"
  /\ IF pend = cfg.id
     THEN sess' = [id |-> cfg.id, fresh |-> TRUE, loose |-> FALSE] /\ act' = [a |-> "callback", allow |-> {"done"}, token |-> {To(cfg, "code")}, sends |-> Sends(cfg)]
     ELSE UNCHANGED sess /\ act' = [a |-> "callback", allow |-> {"reject"}, token |-> {}, sends |-> ""]
  /\ UNCHANGED <<cfg, secrets, down, may, used>>
(* a session may be ended by a change of its configuration *)
Visit ==
  /\ cfg # None /\ sess.id # "none"
  /\ IF sess.id # cfg.id THEN act' = [a |-> "visit", allow |-> {"login"}, token |-> {}, sends |-> ""] /\ UNCHANGED sess
     ELSE /\ act' = [a |-> "visit", allow |-> {"ok"} \union (IF sess.loose THEN {"login"} ELSE {}), token |-> IF sess.fresh THEN {} ELSE {To(cfg, "refresh")}, sends |-> Sends(cfg)]
          /\ sess' = [sess EXCEPT !.fresh = TRUE]
  /\ UNCHANGED <<cfg, secrets, down, may, pend, used>>
Expire == sess.id # "none" /\ sess.fresh /\ sess' = [sess EXCEPT !.fresh = FALSE] /\ act' = [a |-> "expire"] /\ UNCHANGED <<cfg, secrets, down, may, pend, used>>
(* somebody logs in at the other configuration *)
Elsewhere == act' = [a |-> "elsewhere", token |-> {[prov |-> Other.prov, id |-> Other.id, how |-> How(Other), grant |-> "code", secrets |-> {Other.plain}]}] /\ UNCHANGED <<cfg, secrets, down, may, pend, sess, used>>

Next == \/ \E c \in Config, n \in Failing : Configure(c, n)
        \/ \E v \in [s : Value.s, t : Value.t] : Store(v)
        \/ Toggle \/ Begin \/ Callback \/ Visit \/ Expire \/ Elsewhere
Spec == Init /\ [][Next]_vars

TypeOK == down \in BOOLEAN /\ may \subseteq {"", "plain", "s1", "s2", "t1"} /\ (cfg # None => may # {})
(* what is sent is one of the secrets it may be, to the configuration's own provider, as its own client *)
Right == act.a \in {"callback", "visit"} => \A t \in act.token : act.sends \in t.secrets /\ t.prov = cfg.prov /\ t.id = cfg.id
(* never another configuration's *)
Own == act.a \in {"callback", "visit"} => \A t \in act.token : Other.plain \notin t.secrets
(* the secret in effect is determined, except after a change or outage of the secrets the configuration has not been confirmed since *)
Determined == act.a = "configure" /\ ~down => Cardinality(may) = 1
NoAnswerWithoutLogin == act.a = "visit" /\ act.allow = {"ok"} => sess.id = cfg.id
View == <<cfg, secrets, down, may, pend, sess, used, IF act.a \in {"callback", "visit"} THEN act ELSE [a |-> act.a]>>
(* enough to check the invariants *)
SmallMethod == {"client_secret_basic", "client_secret_post"}
SmallRef == {"none", "s.k"}
SmallValue == [s |-> {"gone", "s1", "s2"}, t |-> {"gone"}]
==================================================================================
