---------------------------- MODULE Sim_Credentials -----------------------------
(* Random behaviours of Credentials; tokens expire after every Ticks steps, all at once. *)
EXTENDS Credentials, SequencesExt, Randomization, Json
CONSTANTS Depth, Ticks
VARIABLES hist, outages, first
Pick(S) == RandomElement(S)
Changed == IF cfg = None THEN Pick(Config)
           ELSE LET f == Pick({"prov", "id", "method", "ref", "ref", "plain", "none"}) IN
                CASE f = "prov" -> [cfg EXCEPT !.prov = Pick(Provider)] [] f = "id" -> [cfg EXCEPT !.id = Pick(Id)] [] f = "method" -> [cfg EXCEPT !.method = Pick(Method)]
                  [] f = "ref" -> [cfg EXCEPT !.ref = Pick(Ref)] [] f = "plain" -> [cfg EXCEPT !.plain = Pick({"", "plain"})] [] OTHER -> cfg
SInit == Init /\ hist = <<>> /\ outages = (Pick(1..20) = 1) /\ first = secrets
Tick == IF sess.id # "none" /\ sess.fresh THEN Expire ELSE act' = [a |-> "expire"] /\ UNCHANGED <<cfg, secrets, down, may, pend, sess, used>>
(* the configuration changes at every third step only, as taking it in takes time *)
Step(k) ==
  CASE cfg = None \/ (Len(hist) % 3 = 0 /\ k <= 12) -> \E c \in {IF k = 1 THEN Pick(Config) ELSE Changed}, n \in {IF down THEN 9 ELSE IF Pick(1..8) = 1 THEN 2 ELSE 0} : Configure(c, n)
    [] Len(hist) % 3 = 2 /\ k \in 1..6 -> \E v \in { x \in {[s |-> Pick(Value.s), t |-> Pick(Value.t)]} : x # secrets } : Store(v)
    [] k = 7 /\ outages -> Toggle
    [] k = 8 -> Elsewhere
    [] k > 8 /\ pend # "none" -> Callback
    [] k > 12 /\ sess.id # "none" -> Visit
    [] OTHER -> Begin
SNext == /\ UNCHANGED <<outages, first>>
         /\ IF (Len(hist) + 1) % Ticks = 0 THEN Tick ELSE \E k \in {Pick(1..20)} : Step(k)
         /\ hist' = Append(hist, act')
SSpec == SInit /\ [][SNext]_<<vars, hist, outages, first>>
Emit == Len(hist) = Depth => PrintT("@@" \o ToJson([steps |-> hist, init |-> first]))
=================================================================================
