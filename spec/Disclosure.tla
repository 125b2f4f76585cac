------------------------------- MODULE Disclosure --------------------------------
(* Which credentials the adapter hands to whom (C23). A step is one request of a      *)
(* browser or API client to some client's service, of some kind, and with something    *)
(* that goes wrong (or not); "did" are the disclosures it makes: a credential's class  *)
(* and owner, and where it ends up and whose that is. Defects are variants to refute.  *)
EXTENDS Naturals, FiniteSets, Sequences, TLC
CONSTANTS Clients, Defects
VARIABLES pend,   \* [client -> a login was begun]
          sess,   \* [client -> "no", "jwt" or "opaque": kind of the session's access token]
          key,    \* the cookie keys exist
          did
vars == <<pend, sess, key, did>>

(* ---- whom each credential is for ---- *)
Classes == {"secret", "code", "refresh", "access", "id", "session", "statecookie", "bearer", "key"}
(* of a provider: its endpoints; cookie: Set-Cookie of the browser's own answer; answer: *)
(* anything else in an answer; service: the authorization handed to the service;         *)
(* elsewhere: a host a provider redirects to                                             *)
Sinks == {"log", "discovery", "jwks", "token", "userinfo", "cookie", "answer", "service", "kube", "elsewhere"}
May(c) == CASE c \in {"secret", "code", "refresh"} -> {"token"}
            [] c = "access" -> {"userinfo", "service"}
            [] c = "id" -> {"service"}
            [] c \in {"session", "statecookie"} -> {"cookie"}
            [] c = "key" -> {"kube"}
            [] OTHER -> {}

(* ---- what can happen ---- *)
TokenFaults == {"t400", "t401", "t500", "tdrop", "tgarbage", "tempty", "thang", "telsewhere"}
BadTokens == {"expired", "badsig", "newkey", "idgarbage", "rules"}
InfoFaults == {"opaque401", "opaque500", "opaquedrop", "opaquehang", "opaqueredirect", "opaqueelsewhere"}
Faults(k) ==
  CASE k = "api" -> {"valid", "expired", "badsig", "nokid", "newkid", "hmac", "none", "garbage", "scheme", "extra", "rules",
                     "jwks500", "jwksdrop", "jwksgarbage", "noconfig", "both"}
    [] k = "login" -> {"ok", "discovery500", "discoverydrop", "discoverygarbage", "noconfig"}
    [] k = "callback" -> {"ok", "opaque", "wrongstate", "nostate", "nocookie", "foreigncookie", "errorparam", "nocode", "noid", "opaquerules"}
                         \union TokenFaults \union BadTokens \union InfoFaults
    [] k = "session" -> {"ok", "opaque", "keysgone", "newrules", "othersclient", "unknown"} \union InfoFaults
    [] k = "refresh" -> {"ok", "kept", "opaque", "noid"} \union TokenFaults \union BadTokens \union InfoFaults
    [] k = "logout" -> {"ok", "nosession"}
    [] k = "malformed" -> {"noinstance", "notarget", "norequest", "noheaders", "noparams", "empty"}
    [] k = "bootstrap" -> {"create", "lost", "late", "exists"}   \* lost: created, but the answer is lost; late: on a later attempt
Kinds == {"api", "login", "callback", "session", "refresh", "logout", "malformed", "bootstrap"}

(* ---- what the adapter does then ---- *)
Unchecked == {"wrongstate", "nostate", "nocookie", "foreigncookie", "errorparam", "nocode"}
Opaque(f) == f \in {"opaque", "opaquerules"} \union InfoFaults
Exchange(k) == {<<"secret", "token">>, <<IF k = "refresh" THEN "refresh" ELSE "code", "token">>}
Info(f) == IF Opaque(f) THEN {<<"access", "userinfo">>} ELSE {}
Pass == {<<"access", "service">>, <<"id", "service">>}
Meant(k, f) ==
  CASE k = "login" -> IF f = "ok" THEN {<<"statecookie", "cookie">>} ELSE {}
    [] k = "callback" -> IF f \in Unchecked THEN IF f = "nocode" THEN {<<"statecookie", "cookie">>} ELSE {}
                         ELSE Exchange(k) \union Info(f) \union (IF f \in {"ok", "opaque"} THEN {<<"session", "cookie">>} ELSE {})
    [] k = "session" -> IF f \in {"othersclient", "unknown"} THEN {<<"statecookie", "cookie">>}
                        ELSE Info(f) \union (IF f \in {"ok", "opaque"} THEN Pass ELSE {<<"statecookie", "cookie">>})
    [] k = "refresh" -> Exchange(k) \union Info(f) \union
                        (IF f \in {"ok", "kept", "opaque"} THEN Pass \union {<<"session", "cookie">>} ELSE {<<"statecookie", "cookie">>})
    [] k = "bootstrap" -> IF f # "exists" THEN {<<"key", "kube">>} ELSE {}
    [] OTHER -> {}

(* ---- what broken adapters would do ---- *)
If(b, s) == IF b THEN s ELSE {}
Broken(k, f) ==
  If("log-rejected" \in Defects /\ f \in InfoFaults, {<<"access", "log">>})
  \union If("log-malformed" \in Defects /\ k = "malformed", {<<"bearer", "log">>, <<"session", "log">>, <<"code", "log">>})
  \union If("follow-redirect" \in Defects /\ f = "opaqueelsewhere", {<<"access", "elsewhere">>})
  \union If("log-exchange" \in Defects /\ k = "callback" /\ f \in TokenFaults, {<<"code", "log">>})
  \union If("log-keys" \in Defects /\ k = "bootstrap" /\ f = "lost", {<<"key", "log">>})
  \union If("answer-refresh" \in Defects /\ k = "refresh" /\ f \in BadTokens, {<<"refresh", "answer">>})
(* a call made at another client's provider *)
Elsewhere(k, f, c) == If("shared-endpoint" \in Defects /\ k \in {"session", "refresh"}, Clients \ {c})

Do(c, k, f) ==
  did' = { [class |-> d[1], owner |-> c, sink |-> d[2], of |-> c] : d \in Meant(k, f) \union Broken(k, f) }
         \union { [class |-> d[1], owner |-> c, sink |-> d[2], of |-> o] :
                  <<d, o>> \in { x \in Meant(k, f) \X Elsewhere(k, f, c) : x[1][2] \in {"token", "userinfo"} } }
Init == pend = [c \in Clients |-> FALSE] /\ sess = [c \in Clients |-> "no"] /\ key = FALSE /\ did = {}
Boot == \E f \in Faults("bootstrap") : (f = "exists") = key /\ key' = TRUE /\ \E c \in Clients : Do(c, "bootstrap", f)
        /\ UNCHANGED <<pend, sess>>
Step(c) == \E k \in Kinds \ {"bootstrap"} : \E f \in Faults(k) :
  /\ key
  /\ k = "callback" => pend[c]
  /\ k \in {"refresh", "session"} \/ (k = "logout" /\ f = "ok") => sess[c] # "no"
  /\ k = "session" /\ Opaque(f) => sess[c] = "opaque"
  /\ Do(c, k, f)
  /\ pend' = [pend EXCEPT ![c] = IF <<"statecookie", "cookie">> \in Meant(k, f) THEN TRUE ELSE @]
  /\ sess' = [sess EXCEPT ![c] = IF <<"session", "cookie">> \in Meant(k, f) THEN IF Opaque(f) THEN "opaque" ELSE "jwt"
                                 ELSE IF k = "logout" THEN "no"
                                 ELSE IF k \in {"session", "refresh"} /\ Pass \intersect Meant(k, f) = {} /\ f \notin {"othersclient", "unknown"} THEN "no"
                                 ELSE @]
  /\ UNCHANGED key
Next == Boot \/ \E c \in Clients : Step(c)
Spec == Init /\ [][Next]_vars

(* ---- the property ---- *)
OnlyAsMeant == \A d \in did : d.sink \in May(d.class) /\ (d.sink \in {"token", "userinfo", "cookie", "service"} => d.of = d.owner)
NothingInTheLog == \A d \in did : d.sink # "log"
(* whoever was passed had a session of the client, and what the service got is that session's *)
PassesAreSessions == \A d \in did : d.sink = "service" => sess[d.owner] # "no"
===================================================================================
