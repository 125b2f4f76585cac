---------------------------------- MODULE Front ----------------------------------
(* Mixer and Envoy in front of the adapter (C22): they keep a pass for as long as the  *)
(* adapter says and answer later requests of the same attributes with it. A pass that  *)
(* says nothing about its validity is kept for a minute (mixer/pkg/runtime/dispatcher: *)
(* CheckResult.IsDefault). One request of a service with a JWT policy ("api"), one of  *)
(* a service with an OIDC policy ("web"), always of the same attributes.               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANT Validity     \* of the adapter's passes: "none", "default" (a minute), "token" (until the token expires)

Kind == {"api", "web"}
(* rule: whether the policy's rules let the token through; conf: its configuration exists; *)
(* fresh: the token has not expired; alive: the token was handed out, the session not ended (maybe: may have been) *)
(* again: the web session's refresh token is good for new tokens                        *)
VARIABLES rule, conf, fresh, alive, kept, again, act
vars == <<rule, conf, fresh, alive, kept, again, act>>
Init == again = FALSE /\ rule = [k \in Kind |-> TRUE] /\ conf = [k \in Kind |-> TRUE] /\ fresh = [k \in Kind |-> FALSE] /\ alive = [k \in Kind |-> "no"] /\ kept = {} /\ act = [a |-> "init"]

Valid(k) == rule[k] /\ conf[k] /\ fresh[k]
Otherwise(k) == IF conf[k] /\ k = "web" THEN "login" ELSE "reject"
Keeps == Validity # "none"
Refreshes(k) == k = "web" /\ again /\ alive[k] = "yes" /\ rule[k] /\ conf[k] /\ ~fresh[k]
Decided(k) == IF Refreshes(k) THEN "ok" ELSE IF Valid(k) /\ alive[k] = "yes" THEN "ok" ELSE IF Valid(k) /\ alive[k] = "maybe" THEN "any" ELSE Otherwise(k)

(* a session found invalid may be ended *)
Ask(k) ==
  /\ alive[k] # "no" \/ k = "web"
  /\ IF k \in kept THEN act' = [a |-> "ask", kind |-> k, out |-> "ok", refresh |-> FALSE] /\ UNCHANGED <<kept, alive, fresh>>
     ELSE /\ act' = [a |-> "ask", kind |-> k, out |-> Decided(k), refresh |-> Refreshes(k)]
          /\ fresh' = [fresh EXCEPT ![k] = @ \/ Refreshes(k)]
          /\ kept' = IF Decided(k) = "ok" /\ Keeps THEN kept \union {k} ELSE kept
          /\ alive' = IF k = "web" /\ alive[k] # "no" /\ ~Valid(k) /\ ~Refreshes(k) THEN [alive EXCEPT ![k] = "maybe"] ELSE alive
  /\ UNCHANGED <<rule, conf, again>>
(* a new token, or a new login: other attributes, so nothing kept fits *)
Begin(k, r) == /\ (k = "web" \/ ~r) /\ again' = (IF k = "web" THEN r ELSE again) /\ rule[k] /\ conf[k] /\ fresh' = [fresh EXCEPT ![k] = TRUE] /\ alive' = [alive EXCEPT ![k] = "yes"] /\ kept' = kept \ {k}
            /\ act' = [a |-> "begin", kind |-> k, refresh |-> r] /\ UNCHANGED <<rule, conf>>
Logout == alive["web"] # "no" /\ conf["web"] /\ alive' = [alive EXCEPT !["web"] = "no"] /\ act' = [a |-> "logout"] /\ UNCHANGED <<rule, conf, fresh, kept, again>>
ToggleRule(k) == rule' = [rule EXCEPT ![k] = ~@] /\ act' = [a |-> "rule", kind |-> k, on |-> ~rule[k]] /\ UNCHANGED <<conf, fresh, alive, kept, again>>
(* the sessions of a configuration may end with it *)
ToggleConf(k) == /\ conf' = [conf EXCEPT ![k] = ~@] /\ act' = [a |-> "conf", kind |-> k, on |-> ~conf[k]] /\ UNCHANGED <<rule, fresh, kept, again>>
                 /\ alive' = IF k = "web" /\ alive[k] = "yes" THEN [alive EXCEPT ![k] = "maybe"] ELSE alive
Expire == /\ fresh' = [k \in Kind |-> FALSE] /\ act' = [a |-> "expire"] /\ UNCHANGED <<rule, conf, alive, again>>
          /\ kept' = IF Validity = "token" THEN {} ELSE kept
Minute == kept # {} /\ kept' = {} /\ act' = [a |-> "minute"] /\ UNCHANGED <<rule, conf, fresh, alive, again>>

Next == (\E k \in Kind : Ask(k) \/ (\E r \in BOOLEAN : Begin(k, r)) \/ ToggleRule(k) \/ ToggleConf(k)) \/ Logout \/ Expire \/ Minute
Spec == Init /\ [][Next]_vars

TypeOK == kept \subseteq Kind /\ alive \in [Kind -> {"no", "yes", "maybe"}]
(* every pass is due to what holds when it is given *)
Anew == [][act'.a = "ask" /\ act'.out = "ok" => (Valid(act'.kind) \/ Refreshes(act'.kind)) /\ alive[act'.kind] # "no"]_vars
(* and whoever is entitled passes *)
Entitled == [][act'.a = "ask" /\ Valid(act'.kind) /\ alive[act'.kind] = "yes" => act'.out = "ok"]_vars
==================================================================================
