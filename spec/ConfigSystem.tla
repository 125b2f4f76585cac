----------------------------- MODULE ConfigSystem -----------------------------
(* Policies and the configurations they name, in several namespaces that use  *)
(* the same names: one policy, one JWT and one OIDC configuration each. Every *)
(* version of a configuration has a provider of its own; the providers' keys  *)
(* differ but all carry the same key id, and the OIDC client id is the same.  *)
EXTENDS Naturals, FiniteSets, Sequences, TLC, Json

CONSTANTS NS, NumJwt, NumOidc, PolicyKinds

VARIABLES jwt, oidc,   \* [NS -> version, 0: does not exist]
          pol,         \* [NS -> kind of contents, "none": does not exist]
          act
vars == <<jwt, oidc, pol, act>>

(* contents of a policy: service, path ("/" prefix or "/x" exact), type, and   *)
(* whether the configuration named is "cfg" or one that never exists; an entry *)
(* may list further policies: the first decides, but all have to be usable     *)
En2(s, p, t, c, more) == [svc |-> s, path |-> p, type |-> t, cfg |-> c, also |-> more]
En(s, p, t, c) == En2(s, p, t, c, <<>>)
Also(t, c) == <<[type |-> t, cfg |-> c]>>
Contents(k) ==
  CASE k = "none" -> {}
    [] k = "jwt" -> { En("s", "/", "jwt", "cfg") }
    [] k = "oidc" -> { En("s", "/", "oidc", "cfg") }
    [] k = "jwt-t" -> { En("t", "/", "jwt", "cfg") }
    [] k = "oidc-t" -> { En("t", "/", "oidc", "cfg") }
    [] k = "unsupported" -> { En("s", "/", "unsupported", "cfg") }
    [] k = "dangling" -> { En("s", "/", "jwt", "nope") }
    [] k = "dangling-oidc" -> { En("s", "/", "oidc", "nope") }
    [] k = "foreign" -> { En("s", "/", "jwt", "other"), En("s", "/x", "oidc", "other"), En("t", "/", "oidc", "other") }   \* named after the other namespace's
    [] k = "mixed" -> { En("s", "/x", "jwt", "nope"), En("s", "/", "jwt", "cfg") }
    [] k = "mixed2" -> { En("s", "/x", "oidc", "cfg"), En("s", "/", "jwt", "cfg"), En("t", "/x", "unsupported", "cfg") }
    [] k = "second" -> { En2("s", "/x", "jwt", "nope", Also("jwt", "cfg")), En2("s", "/", "unsupported", "cfg", Also("oidc", "cfg")),
                         En2("t", "/", "oidc", "nope", Also("oidc", "cfg") \o Also("jwt", "cfg")) }
    [] k = "both" -> { En2("s", "/x", "jwt", "cfg", Also("oidc", "cfg")), En2("s", "/", "oidc", "cfg", Also("jwt", "cfg")),
                       En2("t", "/x", "jwt", "cfg", Also("jwt", "nope")), En2("t", "/", "oidc", "cfg", Also("jwt", "cfg") \o Also("unsupported", "cfg")) }
    [] OTHER -> {}

Usable(n, e) == /\ e.cfg = "cfg"
                /\ e.type = "jwt" => jwt[n] # 0
                /\ e.type = "oidc" => oidc[n] # 0
                /\ e.type \in {"jwt", "oidc"}

Deciding(n, s, p) ==
  LET here == { e \in Contents(pol[n]) : e.svc = s }
      exact == { e \in here : e.path = p /\ p # "/" }
  IN  IF exact # {} THEN exact ELSE { e \in here : e.path = "/" }

(* credentials: none, a token of version v of namespace m's JWT configuration, *)
(* or a session begun under version v of the OIDC configuration of m           *)
Creds == [kind : {"none"}, ns : {"-"}, ver : {0}]
         \union [kind : {"token"}, ns : NS, ver : 1..NumJwt]
         \union [kind : {"session"}, ns : NS, ver : 1..NumOidc]

Outcome(n, s, p, c) ==
  LET d == Deciding(n, s, p)
  IN  IF d = {} THEN "ok"
      ELSE LET e == CHOOSE e \in d : TRUE
           IN  CASE ~ \A i \in 1..Len(e.also) : Usable(n, e.also[i]) -> "deny"
                 [] e.type = "jwt" /\ e.cfg = "cfg" /\ jwt[n] # 0 ->
                      IF c.kind = "token" /\ c.ns = n /\ c.ver = jwt[n] THEN "ok" ELSE "deny"
                 [] e.type = "oidc" /\ e.cfg = "cfg" /\ oidc[n] # 0 ->
                      IF c.kind = "session" /\ c.ns = n /\ c.ver = oidc[n] THEN "ok"
                      ELSE "login:" \o n \o ToString(oidc[n])
                 [] OTHER -> "deny"

Init == /\ jwt = [n \in NS |-> 0] /\ oidc = [n \in NS |-> 0] /\ pol = [n \in NS |-> "none"] /\ act = <<"init">>

SetJwt(n, v) == jwt[n] # v /\ jwt' = [jwt EXCEPT ![n] = v] /\ UNCHANGED <<oidc, pol>> /\ act' = <<"jwt", n, v>>
SetOidc(n, v) == oidc[n] # v /\ oidc' = [oidc EXCEPT ![n] = v] /\ UNCHANGED <<jwt, pol>> /\ act' = <<"oidc", n, v>>
SetPol(n, k) == pol[n] # k /\ pol' = [pol EXCEPT ![n] = k] /\ UNCHANGED <<jwt, oidc>> /\ act' = <<"policy", n, k>>
Next == \E n \in NS : \/ \E v \in 0..NumJwt : SetJwt(n, v)
                      \/ \E v \in 0..NumOidc : SetOidc(n, v)
                      \/ \E k \in PolicyKinds : SetPol(n, k)
Spec == Init /\ [][Next]_vars
View == <<jwt, oidc, pol>>

Services == {"s", "t"}
ProbePaths == {"/x", "/y"}

(* C03: decided requests never pass unless the named configuration exists and  *)
(* its current version accepts the credentials                                 *)
FailClosed ==
  \A n \in NS, s \in Services, p \in ProbePaths, c \in Creds :
    (Deciding(n, s, p) # {} /\ Outcome(n, s, p, c) = "ok")
      => \E e \in Deciding(n, s, p) : /\ e.cfg = "cfg"
                                      /\ \A i \in 1..Len(e.also) : Usable(n, e.also[i])
                                      /\ \/ e.type = "jwt" /\ c.kind = "token" /\ c.ver = jwt[n] /\ jwt[n] # 0
                                         \/ e.type = "oidc" /\ c.kind = "session" /\ c.ver = oidc[n] /\ oidc[n] # 0
(* C04: what happens in one namespace is invisible in all others; so is a      *)
(* policy to services it does not name                                         *)
Isolation ==
  [][\A n \in NS : (jwt'[n] = jwt[n] /\ oidc'[n] = oidc[n] /\ pol'[n] = pol[n]) =>
       \A s \in Services, p \in ProbePaths, c \in Creds : Outcome(n, s, p, c)' = Outcome(n, s, p, c)]_vars
ServiceIsolation ==
  \A n \in NS, s \in Services : (\A e \in Contents(pol[n]) : e.svc # s) =>
       \A p \in ProbePaths, c \in Creds : Outcome(n, s, p, c) = "ok"
(* foreign credentials are worthless in a namespace *)
NoForeignCredentials ==
  \A n \in NS, s \in Services, p \in ProbePaths, c \in Creds :
    (c.ns \notin {n, "-"} /\ Deciding(n, s, p) # {}) => Outcome(n, s, p, c) # "ok"

Abs == [jwt |-> jwt, oidc |-> oidc, pol |-> pol]
AbsNext == [jwt |-> jwt', oidc |-> oidc', pol |-> pol']
EmitStep == PrintT("@@" \o ToJson([from |-> Abs, act |-> act', to |-> AbsNext]))
EmitState == PrintT("##" \o ToJson([state |-> Abs,
   probe |-> { [ns |-> q[1], svc |-> q[2], path |-> q[3], cred |-> q[4], expect |-> Outcome(q[1], q[2], q[3], q[4])]
               : q \in NS \X Services \X ProbePaths \X Creds }]))
EmitContents == PrintT("%%" \o ToJson([k \in PolicyKinds |-> Contents(k)]))
ASSUME EmitContents
===============================================================================
