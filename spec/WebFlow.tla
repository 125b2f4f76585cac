------------------------------- MODULE WebFlow --------------------------------
(* Logins and sessions of OIDC clients (C09, C10, C11, C13). Requests may carry *)
(* any cookies that were ever issued, to anybody: who holds a cookie is not     *)
(* known to the adapter. A login is completed with the state cookie and the     *)
(* state parameter it was begun with; a session is used with its cookie.        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxLogins, MaxSessions, Sampling   \* Sampling: parameters are drawn at random (simulation)

Clients == {"c1", "c2"}
(* the protected paths and their clients; "strict" has a rule only admins satisfy *)
Paths == {"a", "b", "strict", "other"}
ClientOf(p) == IF p = "other" THEN "c2" ELSE "c1"
Roles == {"admin", "user"}
ValidFor(p, role) == p # "strict" \/ role = "admin"

VARIABLES logins,    \* sequence of [client, path, done]
          sessions,  \* sequence of [client, role, live]; live is "yes", "no", or "maybe" where the property leaves it open
          ev         \* the last request and what is expected of it
vars == <<logins, sessions, ev>>

Init == logins = <<>> /\ sessions = <<>> /\ ev = [op |-> "init"]

(* ---- cookies: what is sent under the name of a client's cookie -------------- *)
Val(k, n) == [k |-> k, n |-> n]
NoCookie == Val("none", 0)
Own(c) == {NoCookie, Val("garbage", 0), Val("empty", 0)}
          \union { Val("state", l) : l \in { l \in 1..Len(logins) : logins[l].client = c } }
          \union { Val("altered", l) : l \in { l \in 1..Len(logins) : logins[l].client = c } }
          \union { Val("cross", l) : l \in { l \in 1..Len(logins) : logins[l].client # c } }    \* another client's state cookie, renamed
          \union { Val("session", s) : s \in { s \in 1..Len(sessions) : sessions[s].client = c } }
          \union { Val("badsession", s) : s \in 1..Len(sessions) }                              \* a session id changed in one character
          \union { Val("rawstate", l) : l \in 1..Len(logins) }                                  \* the state itself instead of its cookie

NewLogin(p) == Append(logins, [client |-> ClientOf(p), path |-> p, done |-> FALSE])
CanLogin == Len(logins) < MaxLogins

(* ---- an ordinary request ----------------------------------------------------- *)
(* the expectation: "pass" with the tokens of a session, or "login"; "any" if open *)
VisitVerdict(p, ck) ==
  IF ck.k # "session" THEN "login"
  ELSE LET s == sessions[ck.n]
       IN  CASE s.live = "no" -> "login"
             [] s.live # "no" /\ ~ValidFor(p, s.role) -> "login"
             [] s.live = "maybe" /\ ValidFor(p, s.role) -> "any"
             [] OTHER -> "pass"
Visit(p, ck) ==
  LET v == VisitVerdict(p, ck)
  IN  /\ (v # "pass" => CanLogin)
      /\ ev' = [op |-> "visit", path |-> p, cookie |-> ck, expect |-> v]
      /\ logins' = IF v = "pass" THEN logins ELSE NewLogin(p)
      (* a session presented where its tokens are not valid may be ended by that *)
      /\ sessions' = IF ck.k = "session" /\ ~ValidFor(p, sessions[ck.n].role) /\ sessions[ck.n].live = "yes"
                     THEN [sessions EXCEPT ![ck.n].live = "maybe"] ELSE sessions

(* ---- the callback ------------------------------------------------------------- *)
Codes == {"admin", "user", "refused", "none", "error", "error+code"}
StateMatches(p, ck, st) ==
  /\ ck.k = "state" /\ logins[ck.n].client = ClientOf(p)
  /\ st = Val("state", ck.n)
Callback(p, ck, st, code) ==
  LET match == StateMatches(p, ck, st)
      exchange == match /\ code \in {"admin", "user", "refused"}
      ok == exchange /\ code # "refused" /\ ValidFor(p, code)
      (* left open: a login completed a second time, or at another path than it began *)
      open == exchange /\ (logins[ck.n].done \/ logins[ck.n].path # p)
  IN  /\ (ok => Len(sessions) < MaxSessions)
      /\ (code = "none" => CanLogin)
      /\ ev' = [op |-> "callback", path |-> p, cookie |-> ck, state |-> st, code |-> code,
                expect |-> IF code = "none" THEN "login" ELSE IF ok THEN (IF open THEN "any" ELSE "session") ELSE "reject",
                exchange |-> IF exchange THEN (IF open THEN "any" ELSE "yes") ELSE "no"]
      /\ sessions' = IF ok THEN Append(sessions, [client |-> ClientOf(p), role |-> code, live |-> "yes"]) ELSE sessions
      /\ logins' = IF code = "none" THEN NewLogin(p)
                   ELSE IF exchange THEN [logins EXCEPT ![ck.n].done = TRUE] ELSE logins

(* ---- logout -------------------------------------------------------------------- *)
Logout(p, ck) ==
  /\ ev' = [op |-> "logout", path |-> p, cookie |-> ck, expect |-> "bye"]
  /\ sessions' = IF ck.k = "session" THEN [sessions EXCEPT ![ck.n].live = "no"] ELSE sessions
  /\ UNCHANGED logins

(* parameters: all of them, or drawn at random *)
Pick(S) == IF Sampling THEN {RandomElement(S)} ELSE S
States == { Val("state", l) : l \in 1..Len(logins) } \union { Val("changed", l) : l \in 1..Len(logins) } \union {Val("empty", 0), Val("wrong", 0)}

(* the requests browsers make in the ordinary course of things *)
Pending == { l \in 1..Len(logins) : ~logins[l].done }
Alive == { s \in 1..Len(sessions) : sessions[s].live = "yes" }
Ordinary ==
  \/ \E p \in Pick(Paths) : Visit(p, NoCookie)
  \/ Pending # {} /\ \E l \in Pick(Pending), code \in Pick({"admin", "user"}) : Callback(logins[l].path, Val("state", l), Val("state", l), code)
  \/ Alive # {} /\ \E s \in Pick(Alive) : \E p \in Pick({ p \in Paths : ClientOf(p) = sessions[s].client }) : Visit(p, Val("session", s))
AnyRequest ==
  \/ \E p \in Pick(Paths) : \E ck \in Pick(Own(ClientOf(p))) : Visit(p, ck)
  \/ \E p \in Pick(Paths) : \E ck \in Pick(Own(ClientOf(p))), st \in Pick(States), code \in Pick(Codes) : Callback(p, ck, st, code)
  \/ \E p \in Pick(Paths) : \E ck \in Pick(Own(ClientOf(p))) : Logout(p, ck)
(* requests that are nearly right, to draw from *)
Nearly ==
  \/ logins # <<>> /\ \E l \in Pick(1..Len(logins)) : \E st \in Pick(States), code \in Pick(Codes) : Callback(logins[l].path, Val("state", l), st, code)
  \/ logins # <<>> /\ \E l \in Pick(1..Len(logins)) : \E ck \in Pick(Own(logins[l].client)) : Callback(logins[l].path, ck, Val("state", l), "admin")
  \/ sessions # <<>> /\ \E s \in Pick(1..Len(sessions)) : \E p \in Pick({ p \in Paths : ClientOf(p) = sessions[s].client }) : Logout(p, Val("session", s))
Next == IF Sampling THEN CASE RandomElement(1..5) \in {1, 2} -> Ordinary [] OTHER -> AnyRequest \/ Nearly ELSE AnyRequest
Spec == Init /\ [][Next]_vars

(* ---- what the properties say ------------------------------------------------------ *)
(* C09: sessions begin only with a callback that carries the cookie and the state of   *)
(* one login of the client                                                             *)
OnlyCompletedLogins ==
  [][Len(sessions') > Len(sessions) =>
       /\ ev'.op = "callback" /\ ev'.cookie.k = "state" /\ ev'.state = ev'.cookie
       /\ logins[ev'.cookie.n].client = ClientOf(ev'.path) /\ sessions'[Len(sessions')].client = ClientOf(ev'.path)]_vars
NoStrayExchange == [][(ev'.op = "callback" /\ ev'.exchange # "no") => (ev'.cookie.k = "state" /\ ev'.state = ev'.cookie /\ ev'.code \notin {"none", "error", "error+code"})]_vars
(* C10 *)
PassesAreSessions ==
  [][(ev'.op = "visit" /\ ev'.expect \in {"pass", "any"}) =>
       /\ ev'.cookie.k = "session" /\ sessions[ev'.cookie.n].live # "no"
       /\ sessions[ev'.cookie.n].client = ClientOf(ev'.path) /\ ValidFor(ev'.path, sessions[ev'.cookie.n].role)]_vars
(* what the adapter remembers: the requests themselves are not part of it *)
View == <<logins, sessions>>
(* C11: ended is ended; and nothing but a logout with its cookie (or a policy its tokens *)
(* do not satisfy) touches a session                                                     *)
EndedStaysEnded == [][\A s \in 1..Len(sessions) : sessions[s].live = "no" => sessions'[s].live = "no"]_vars
OthersUnaffected == [][\A s \in 1..Len(sessions) : sessions'[s] # sessions[s] => ev'.cookie = Val("session", s)]_vars
LogoutEnds == [][(ev'.op = "logout" /\ ev'.cookie.k = "session") => sessions'[ev'.cookie.n].live = "no"]_vars
===============================================================================
