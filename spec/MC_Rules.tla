-------------------------------- MODULE MC_Rules ------------------------------
(* The adapter's evaluation, rule by rule and value by value, against Holds.   *)
EXTENDS Rules, TLC, SequencesExt
RuleValues == { <<"x">>, <<"x", "y">>, <<"2">>, <<"true", "x">>, <<"x y">> }
Rule == [claim : RuleClaims, match : Matches, values : RuleValues, source : Sources]
Second == { [claim |-> "c", match |-> "NOT", values |-> <<"y">>, source |-> "access_token"], [claim |-> "c", match |-> "ANY", values |-> <<"x", "2">>, source |-> "id_token"] }
VARIABLES rules, tok, kind, i, j, hit, verdict
vars == <<rules, tok, kind, i, j, hit, verdict>>
Init == /\ \E r \in Rule : rules \in { <<r>> } \union { <<r, s>> : s \in Second }
        /\ tok \in Token /\ kind \in {"access_token", "id_token"}
        /\ i = 1 /\ j = 1 /\ hit = 0 /\ verdict = "none"
Cur == rules[i]
Done == i > Len(rules)
NextRule == i' = i + 1 /\ j' = 1 /\ hit' = 0 /\ UNCHANGED <<rules, tok, kind, verdict>>
Reject == verdict' = "reject" /\ UNCHANGED <<rules, tok, kind, i, j, hit>>
(* NULL is treated as a missing claim *)
Set(v) == v.set
Step ==
  /\ verdict = "none"
  /\ IF Done THEN verdict' = "accept" /\ UNCHANGED <<rules, tok, kind, i, j, hit>>
     ELSE IF ~Applies(Cur, kind) THEN NextRule
     ELSE LET v == LookUp(Cur.claim, tok)
          IN  IF v.kind = "bad" THEN Reject
              ELSE IF j > Len(Cur.values)
                   THEN CASE Cur.match = "NOT" -> IF hit = 0 THEN NextRule ELSE Reject
                          [] Cur.match = "ANY" -> IF hit > 0 THEN NextRule ELSE Reject
                          [] OTHER -> IF hit = Len(Cur.values) THEN NextRule ELSE Reject
                   ELSE /\ j' = j + 1 /\ hit' = IF Cur.values[j] \in Set(v) THEN hit + 1 ELSE hit
                        /\ UNCHANGED <<rules, tok, kind, i, verdict>>
Spec == Init /\ [][Step]_vars
Agrees == /\ (verdict = "accept" => TokenOk(rules, kind, tok) \in {"yes", "open"})
          /\ (verdict = "reject" => TokenOk(rules, kind, tok) \in {"no", "open"})
(* adding a rule never makes more tokens acceptable *)
Monotone == \A k \in 1..Len(rules) : TokenOk(rules, kind, tok) = "yes" => TokenOk(<<rules[k]>>, kind, tok) = "yes"
===============================================================================
