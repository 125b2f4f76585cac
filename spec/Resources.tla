-------------------------------- MODULE Resources ---------------------------------
(* What the adapter holds while and after it works (C24): connections to providers,   *)
(* tasks, and entries it keeps. An operation is of a kind, with something that goes    *)
(* wrong or not, and makes calls one after another; each call uses a connection until  *)
(* its answer has been dealt with. Defects are variants to refute.                     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS MaxOps, Budget, Pool, Defects
VARIABLES ops,      \* [id -> the operation under way]
          busy,     \* connections in use
          idle,     \* connections kept for reuse
          tasks,    \* tasks of the adapter
          config,   \* [object -> version] configured
          entries,  \* [object -> versions held]
          logins,   \* sessions that users have
          sessions, \* sessions that are held, with each set of tokens held
          junk,     \* anything else held on to
          left, next
vars == <<ops, busy, idle, tasks, config, entries, logins, sessions, junk, left, next>>

(* ---- the calls an operation makes: how each ends ---- *)
Ends == {"ok", "refused", "error", "drop", "garbage", "hang"}
Bad == Ends \ {"ok"}
Objects == {"policy", "jwt", "oidc"}
Kinds == {"api", "login", "callback", "session", "refresh", "round", "change", "malformed", "cancelled"}
(* what goes wrong is a tuple: what, or where and what; only the last call ends badly *)
Seq_(es, e) == [i \in 1..Len(es) |-> IF i = Len(es) THEN <<es[i], e>> ELSE <<es[i], "ok">>]
One(s) == { <<x>> : x \in s }
Alone == {"valid", "expired", "badsig", "notatoken", "noconfig", "begun", "wrongstate", "nocookie", "errorparam", "jwt", "empty"}
Calls(k, f) ==
  CASE k = "change" -> <<>>
    [] k = "round" -> Seq_(<<"token">>, "ok")
    [] k = "callback" /\ f[1] \in {"badtoken", "rules", "noid"} -> Seq_(<<"token">>, "ok")
    [] k = "callback" /\ f[1] = "token" -> Seq_(<<"token">>, f[2])
    [] k = "callback" /\ f[1] = "userinfo" -> Seq_(<<"token", "userinfo">>, f[2])
    [] f[1] \in Alone -> <<>>
    [] k = "api" -> Seq_(<<"jwks">>, IF f[1] = "newkid" THEN "ok" ELSE f[1])
    [] k = "login" -> Seq_(<<"discovery">>, f[1])
    [] k = "session" -> Seq_(<<"userinfo">>, f[1])
    [] k = "refresh" -> Seq_(<<"token">>, f[1])
    [] k = "cancelled" -> Seq_(f, "hang")
Faults(k) ==
  CASE k = "api" -> One({"valid", "expired", "badsig", "notatoken", "noconfig", "newkid"} \union Bad)
    [] k = "login" -> One({"begun"} \union Bad)
    [] k = "callback" -> One({"wrongstate", "nocookie", "errorparam", "badtoken", "rules", "noid"}) \union ({"token", "userinfo"} \X Bad)
    [] k = "session" -> One({"jwt"} \union Ends)
    [] k = "refresh" -> One(Ends)
    [] k = "round" -> One({"jwt"})                    \* a login and its logout
    [] k = "change" -> (Objects \X {"replaced", "removed"}) \union ({"jwt", "oidc"} \X {"replaced", "removed"} \X {"down"})  \* its provider is down
    [] k = "malformed" -> One({"empty"})
    [] k = "cancelled" -> One({"jwks", "token", "userinfo"})

(* ---- transitions ---- *)
D(d) == d \in Defects
Init == /\ ops = << >> /\ busy = 0 /\ idle = 0 /\ tasks = 0 /\ junk = 0 /\ left = Budget /\ next = 1
        /\ config = [o \in Objects |-> 0] /\ entries = [o \in Objects |-> {}]
        /\ logins = {} /\ sessions = {}
Begin == /\ left > 0 /\ Cardinality(DOMAIN ops) < MaxOps
         /\ \E k \in Kinds : \E f \in Faults(k) :
              /\ k \in {"session", "refresh"} => logins # {}
              /\ ops' = ops @@ (next :> [kind |-> k, fault |-> f, calls |-> Calls(k, f), calling |-> FALSE, good |-> TRUE,
                                        sess |-> IF k \in {"session", "refresh"} THEN CHOOSE s \in logins : TRUE ELSE 0])
         /\ tasks' = tasks + 1 /\ left' = left - 1 /\ next' = next + 1
         /\ UNCHANGED <<busy, idle, config, entries, logins, sessions, junk>>
Call(i) == /\ ~ops[i].calling /\ ops[i].calls # << >> /\ ops[i].good
           /\ ops' = [ops EXCEPT ![i].calling = TRUE]
           /\ busy' = busy + 1 /\ idle' = IF idle > 0 THEN idle - 1 ELSE 0
           /\ UNCHANGED <<tasks, config, entries, logins, sessions, junk, left, next>>
Answer(i) == LET e == Head(ops[i].calls)[2] IN
  /\ ops[i].calling
  /\ ops' = [ops EXCEPT ![i].calling = FALSE, ![i].calls = Tail(@), ![i].good = e = "ok"]
  /\ busy' = IF D("unclosed-error") /\ e \in {"refused", "error"} THEN busy ELSE busy - 1
  /\ \E n \in {idle, idle + 1} : n <= Pool /\ (e \in {"drop", "hang"} => n = idle) /\ idle' = n
  /\ tasks' = IF D("task-left") /\ e = "hang" THEN tasks + 1 ELSE tasks
  /\ UNCHANGED <<config, entries, logins, sessions, junk, left, next>>
(* the operation ends: what it changes for good *)
Finish(i) == LET o == ops[i] IN
  /\ ~o.calling /\ (o.calls = << >> \/ ~o.good)
  /\ ops' = [j \in DOMAIN ops \ {i} |-> ops[j]]
  /\ tasks' = tasks - 1
  /\ junk' = IF D("kept-answers") /\ o.kind = "api" /\ o.fault = <<"valid">> THEN junk + 1 ELSE junk
  /\ CASE o.kind = "change" ->
            LET obj == o.fault[1] IN
            IF o.fault[2] = "replaced"
            THEN /\ config' = [config EXCEPT ![obj] = i]
                 /\ entries' = [entries EXCEPT ![obj] = IF D("kept-replaced") THEN @ \union {i} ELSE {i}]
                 /\ UNCHANGED <<logins, sessions>>
            ELSE /\ config' = [config EXCEPT ![obj] = 0]
                 /\ entries' = [entries EXCEPT ![obj] = IF D("kept-removed") THEN @ ELSE {}]
                 /\ UNCHANGED <<logins, sessions>>
       [] o.kind = "round" ->  \* begun and ended: nothing stays; or begun only, and it is a session
            /\ \E stays \in BOOLEAN :
                 /\ logins' = IF stays THEN logins \union {i} ELSE logins
                 /\ sessions' = IF stays \/ D("kept-loggedout") THEN sessions \union {<<i, i>>} ELSE sessions
            /\ UNCHANGED <<config, entries>>
       [] o.kind = "refresh" /\ o.good /\ o.sess \in logins ->
            /\ sessions' = IF D("kept-refreshed") THEN sessions \union {<<o.sess, i>>} ELSE { s \in sessions : s[1] # o.sess } \union {<<o.sess, i>>}
            /\ UNCHANGED <<logins, config, entries>>
       [] o.kind = "session" /\ o.fault[1] \in Bad ->  \* invalid by now: the session ends
            /\ logins' = logins \ {o.sess} /\ sessions' = { s \in sessions : s[1] # o.sess }
            /\ UNCHANGED <<config, entries>>
       [] OTHER -> UNCHANGED <<config, entries, logins, sessions>>
  /\ UNCHANGED <<busy, idle, left, next>>
Next == Begin \/ \E i \in DOMAIN ops : Call(i) \/ Answer(i) \/ Finish(i)
Spec == Init /\ [][Next]_vars /\ \A i \in 1..Budget : WF_vars(i \in DOMAIN ops /\ (Call(i) \/ Answer(i) \/ Finish(i)))

(* ---- the property ---- *)
ConnectionsInUse == busy = Cardinality({ i \in DOMAIN ops : ops[i].calling }) /\ idle <= Pool
TasksAtWork == tasks = Cardinality(DOMAIN ops)
HoldsWhatIsConfigured == \A o \in Objects : entries[o] = IF config[o] = 0 THEN {} ELSE {config[o]}
OneSetPerSession == /\ { s[1] : s \in sessions } = logins
                    /\ Cardinality(sessions) = Cardinality(logins)
NothingElse == junk = 0
(* everything that is begun ends *)
Ends_ == \A i \in 1..Budget : (i \in DOMAIN ops) ~> (i \notin DOMAIN ops)
===================================================================================
