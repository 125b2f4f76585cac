---------------------------------- MODULE Login ----------------------------------
(* What a login asks of the provider, what the callback does with the code, and   *)
(* where it leads (C13).                                                          *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils, SequencesExt, FiniteSets
Big == "TIER" \in DOMAIN IOEnv /\ IOEnv.TIER = "thorough"
Scheme == {"https", "http"}
Host == {"app.example.com", "app.example.com:8443", "10.0.0.1", "[::1]:8080", "APP.example.com", "a-b_c.example", "app.example.com:80", "app.example.com:443", "localhost:8", "app.example.com."}
Path == {"", "/", "/a", "/a/b", "/a/", "/a/b/", "/a%20b", "/a%2Fb", "/A", "/a;v=1", "/a&b=c", "/a+b", "/a@b:c", "/a/oidc/callback/b", "/a/oidc/logout/b", "/oidc", "/a//b", "/a%3Fb%23c", "/oidc/callbacks", "/a=b"}
ClientId == {"plain", "c.1_2-3~4", "https://my.app/x", "a b", "a;b=c", "a,b", "a\"b", "a%b", "a+b", "a&b=c", "MiXed", "a@b", "(a)", "a=b", "a/b?c#d", "{a}", "12345", "a'b<c>d"}
(* absent: no scopes are configured *)
Scopes == {<<"absent">>, <<>>, <<"openid">>, <<"openid", "a/b:c">>, <<"email", "openid", "https://api.example/read.all">>, <<"openid", "a&b=c">>, <<"openid", "offline_access">>}
Scope(s) == IF s \in {<<"absent">>, <<>>} THEN "openid profile email" ELSE FoldLeft(LAMBDA a, b : IF a = "" THEN b ELSE a \o " " \o b, "", s)
(* the query of the provider's authorization endpoint *)
Query == {"", "p=b2c_1_signin", "a=1&b=x%20y"}
(* where the policy sends users after the login; empty: back to where they were *)
Landing == {"", "https://other.example/landing", "https://other.example/l?x=1&y=2#z", "/relative", "/"}
Code == {"plain", "a+b/c=", "a&b=c", "a b", "%41", "a%2Bb", "4/0AX4XfWh-x_y.z~"}
Methods == {"GET", "POST", "HEAD", "PUT"}

Config == [client : ClientId, scopes : Scopes, query : Query, landing : Landing]
Plain == [client |-> "plain", scopes |-> <<"absent">>, query |-> "", landing |-> ""]
Differ(a, b) == Cardinality({ k \in DOMAIN a : a[k] # b[k] })
Configs == { k \in Config : Differ(k, Plain) <= IF Big THEN 3 ELSE 2 }
Request == [scheme : Scheme, host : Host, path : Path, code : Code, method : Methods]
Usual == [scheme |-> "https", host |-> "app.example.com", path |-> "/a", code |-> "plain", method |-> "GET"]
Requests(n) == { r \in Request : Differ(r, Usual) <= n }

Url(r) == r.scheme \o "://" \o r.host \o r.path
(* The port may be left out where it is the scheme's. *)
Forms(r) == {r} \union (IF <<r.scheme, r.host>> \in {<<"https", "app.example.com:443">>, <<"http", "app.example.com:80">>}
                        THEN {[r EXCEPT !.host = "app.example.com"]} ELSE {})
(* The root may be written with or without its slash. *)
Redirects1(r) == { Url(r) \o "/oidc/callback" } \union (IF r.path = "/" THEN { Url([r EXCEPT !.path = ""]) \o "/oidc/callback" } ELSE {})
Pages(r) == { Url(r) } \union (IF r.path \in {"", "/"} THEN { Url([r EXCEPT !.path = p]) : p \in {"", "/"} } ELSE {})
Redirects(r) == UNION { Redirects1(f) : f \in Forms(r) }
Locations(k, r) == IF k.landing # "" THEN {k.landing} ELSE UNION { Pages(f) : f \in Forms(r) }

(* what the provider answers to the exchange *)
Good == {"new", "same", "emptyrefresh", "opaque", "extra"}
Bad == {"400", "401", "500", "503html", "drop", "garbage", "emptybody", "emptyobject", "array", "noaccess", "noid", "emptyid", "expiredaccess", "expiredid", "expiredboth",
        "badsigaccess", "badsigid", "wrongaud", "opaquerefused", "unknownkid", "opaqueid", "none-alg", "400tokens", "302tokens", "204", "null", "string", "nulltokens", "numbers", "truncated", "doubled"}
(* doubled: something follows the JSON object; the first object may be taken *)
Verdict(a) == CASE a \in Good -> "session" [] a = "doubled" -> "any" [] OTHER -> "reject"

Case(k, r, a) == [client |-> k.client, scopes |-> k.scopes, query |-> k.query, landing |-> k.landing,
                  scheme |-> r.scheme, host |-> r.host, path |-> r.path, code |-> r.code, method |-> r.method, answer |-> a,
                  scope |-> Scope(k.scopes), redirects |-> SetToSeq(Redirects(r)), locations |-> SetToSeq(Locations(k, r)), verdict |-> Verdict(a)]
Cases == { Case(k, r, "new") : k \in Configs, r \in Requests(1) }
         \union { Case(k, r, "new") : k \in { k \in Configs : Differ(k, Plain) <= 1 }, r \in Requests(2) }
         \union { Case(k, r, a) : k \in { k \in Configs : Differ(k, Plain) <= 1 }, r \in {Usual, [Usual EXCEPT !.path = "/"]}, a \in Good \union Bad }
ASSUME \A c \in Cases : c.answer \notin Good => c.verdict # "session"
ASSUME \A c \in Cases : Len(c.redirects) > 0 /\ Len(c.locations) > 0
(* a login returns to where it began unless the policy says otherwise *)
ASSUME \A r \in Requests(2) : Url(r) \in Locations(Plain, r)
ASSUME "OUT" \in DOMAIN IOEnv => ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
===============================================================================
