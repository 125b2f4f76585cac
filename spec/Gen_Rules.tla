------------------------------- MODULE Gen_Rules ------------------------------
EXTENDS Rules, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt, Randomization
Big == "TIER" \in DOMAIN IOEnv /\ IOEnv.TIER = "thorough"
RV == { <<"x">>, <<"y">>, <<"x", "y">>, <<"y", "x">>, <<"x", "z">>, <<"x y">>, <<"2">>, <<"1.5">>, <<"1000000">>, <<"true">>, <<"false", "x">>, <<"x", "2", "true">>, <<"-3">>, <<"9007199254740991">>, <<"0.25", "2">>,
        <<"1000000000000000000000">>, <<"2.0">>, <<"xy">>, <<"x", "x">>, <<"c">> }
Rule == [claim : RuleClaims, match : Matches, values : RV, source : Sources]
Toks == SetToSeq(Token)
Row(rules) == [rules |-> rules, access |-> [k \in 1..Len(Toks) |-> TokenOk(rules, "access_token", Toks[k])],
               id |-> [k \in 1..Len(Toks) |-> TokenOk(rules, "id_token", Toks[k])]]
Single == { <<r>> : r \in Rule }
Some == RandomSubset(IF Big THEN 200 ELSE 40, Rule)
Several == { <<r, s>> : <<r, s>> \in RandomSubset(IF Big THEN 3000 ELSE 200, Some \X Some) }
           \union { <<r, s, t>> : <<r, s, t>> \in RandomSubset(IF Big THEN 2000 ELSE 100, Some \X Some \X Some) }
NotEmpty == { << [claim |-> cl, match |-> m, values |-> <<>>, source |-> s] >> : <<cl, m, s>> \in {"c", "o.c"} \X {"NOT", "ANY"} \X Sources }
ASSUME ndJsonSerialize(IOEnv.OUT, << [tokens |-> [k \in 1..Len(Toks) |-> TokenJson(Toks[k])]] >>
         \o SetToSeq({ Row(r) : r \in Single \union Several \union NotEmpty }))
(* the audiences an access token may have, for a policy without rules           *)
Client == "c07-client"
Auds == { Absent, Null, Words(<<Client>>), Words(<<"other">>), Words(<<"c07-client2">>), Words(<<"c07-clien">>), List(<<SStr(Client)>>), List(<<SStr("other"), SStr(Client)>>), List(<<SStr("other")>>), List(<<>>),
          List(<<SBad("{\"id\":\"c07-client\"}")>>), Object, Scalar(T), Words(<<"C07-CLIENT">>) }
AudVerdict(v) == IF v.kind = "bad" THEN "no" ELSE IF Range(DefaultRule(Client).values) \cap v.set # {} THEN "yes" ELSE "no"
ASSUME ndJsonSerialize(IOEnv.OUT2, << SetToSeq({ [aud |-> v.json, expect |-> AudVerdict(v)] : v \in Auds }) >>)
===============================================================================
