------------------------------ MODULE ProviderNeeds -------------------------------
(* What requests need of their identity provider, and what they come to if they get it. *)
EXTENDS Sequences
Endpoints == {"discovery", "jwks", "token", "userinfo"}
AllKinds == {"api", "login", "callback", "callbackopaque", "session", "sessionopaque", "refresh", "apinew"}
If(b, e) == IF b THEN <<e>> ELSE <<>>
(* what a request has to ask of its provider, in order, knowing the document and the keys or not *)
Needs(k, d, y) == CASE k = "api" -> If(~y, "jwks")
                    [] k = "apinew" -> <<"jwks">>   \* signed by a key published since
                    [] k = "login" -> If(~d, "discovery")
                    [] k = "callback" -> If(~d, "discovery") \o <<"token">> \o If(~y, "jwks")
                    [] k = "callbackopaque" -> If(~d, "discovery") \o <<"token">> \o If(~y, "jwks") \o <<"userinfo">>
                    [] k = "session" -> If(~d, "discovery") \o If(~y, "jwks")
                    [] k = "sessionopaque" -> If(~d, "discovery") \o If(~y, "jwks") \o <<"userinfo">>
                    [] k = "refresh" -> If(~d, "discovery") \o If(~y, "jwks") \o <<"token">>
Normal(k) == CASE k \in {"api", "apinew", "session", "sessionopaque", "refresh"} -> "ok" [] k = "login" -> "login" [] OTHER -> "done"
===================================================================================
