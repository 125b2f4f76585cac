-------------------------------- MODULE Malformed ---------------------------------
(* What malformed requests, tokens, cookies, provider answers, configurations and *)
(* paths come to (C20). Everything here is text the harness sends as it is, except *)
(* for @NAMES@, which stand for text TLA+ cannot write or that is long.            *)
(* Outcomes: error, reject, login, ok, done (logged in), page (a logout).          *)
EXTENDS Naturals, Sequences, FiniteSets, ProviderNeeds

Refused == {"reject", "error"}
Anything == Refused \union {"login", "ok", "done", "page"}

(* JSON texts a member may have where something else was expected                  *)
Odd == {"null", "true", "false", "0", "1", "-1", "1.5", "1e300", "1e400", "99999999999999999999", "\"\"", "\" \"", "\"x\"", "\"admin\"", "\"@UTF8@\"", "\"@NUL@\"", "\"\\u0000\"", "\"\\ud800\"",
        "\"@LONG@\"", "[]", "{}", "[null]", "[\"admin\", {}]", "[[\"admin\"]]", "{\"admin\":\"admin\"}", "@DEEP@", "@DEEPOBJ@", "absent"}
IsString(v) == SubSeq(v, 1, 1) = "\""
IsNumber(v) == v \in {"0", "1", "-1", "1.5", "1e300", "99999999999999999999"}

(* ---------------------------------------------------------------- requests *)
(* Requests lacking any part of the required structure. Protection: what the target  *)
(* is protected by; cred: whether a valid credential is in its headers.              *)
Part == {"instance", "target", "request", "headers", "params"}
Above(p) == CASE p = "instance" -> {} [] p \in {"target", "request"} -> {"instance"} [] OTHER -> {"instance", "request"}
Structures == { s \in SUBSET Part : \A p \in s : Above(p) \subseteq s }
Protections == {"open", "jwt", "oidc", "nowhere"}
StructureAllow(s, p, cred) ==
  IF s # Part THEN {"error"}
  ELSE CASE p = "open" -> {"ok"} [] p = "nowhere" -> Refused
         [] p = "jwt" -> IF cred THEN {"ok"} ELSE Refused
         [] OTHER -> IF cred THEN {"ok"} ELSE {"login"}
StructureCases == { [part |-> "structure", has |-> s, prot |-> p, cred |-> c, allow |-> StructureAllow(s, p, c)]
                    : <<s, p, c>> \in Structures \X Protections \X BOOLEAN }

(* ------------------------------------------------------------------ tokens *)
(* A token is made of a header text, a payload text and the way they are put together; *)
(* its signature is genuine unless said otherwise. @H@ @P@ @S@ are its segments.        *)
Places == {"api", "apiid", "webaccess", "webid", "refreshaccess", "refreshid"}
Good(place) == IF place \in {"webaccess", "webid"} THEN {"done"} ELSE {"ok"}
Bad(place) == IF place \in {"refreshaccess", "refreshid"} THEN Refused \union {"login"} ELSE Refused
Header == [alg : Odd \union {"\"RS256\"", "\"RS384\"", "\"none\"", "\"NONE\"", "\"\"", "\"HS256\"", "\"rs256\"", "\"RS256 \"", "\"ES256\""},
           kid : Odd \union {"\"k\"", "\"K\"", "\"k \"", "\"k\\u0000\"", "\"../k\"", "\"%6b\""}, typ : Odd \union {"\"JWT\""}]
Usual == [alg |-> "\"RS256\"", kid |-> "\"k\"", typ |-> "\"JWT\""]
Differ(a, b) == Cardinality({ m \in DOMAIN a : a[m] # b[m] })
(* made with RS256: another alg does not say how the signature was made *)
HeaderAllow(h, place) ==
  CASE h.alg # Usual.alg \/ h.kid # Usual.kid -> Bad(place)
    [] h.typ \in {"\"JWT\"", "absent"} -> Good(place)
    [] OTHER -> Good(place) \union Bad(place)
HeaderCases == { [part |-> "token", what |-> "header", member |-> h, text |-> "", place |-> p, allow |-> HeaderAllow(h, p)]
                 : <<h, p>> \in { h \in Header : Differ(h, Usual) <= 2 } \X {"api"} }
               \union { [part |-> "token", what |-> "header", member |-> h, text |-> "", place |-> p, allow |-> HeaderAllow(h, p)]
                 : <<h, p>> \in { h \in Header : Differ(h, Usual) <= 1 } \X (Places \ {"api"}) }
RawHeaders == {"", "null", "[]", "1", "\"x\"", "{", "{}", "{\"alg\"", "{\"alg\":\"RS256\",\"kid\":\"k\"", "[{\"alg\":\"RS256\",\"kid\":\"k\"}]", "@NUL@", "@UTF8@", "@DEEP@", "@LONG@", "{'alg':'RS256','kid':'k'}"}
RawPayloads == {"", "[]", "1", "\"x\"", "{", "{\"sub\"", "[{\"sub\":\"u\"}]", "@NUL@", "@UTF8@", "@DEEP@", "@LONG@", "<html>", "sub=u", "{\"sub\":\"u\",}"}
(* signed by the provider though it is none of the claim sets a JWT may have: left open *)
OpenPayloads == {"null", "{}", "{\"sub\":\"u\"}{}", "{\"sub\":\"u\"}garbage", "{\"sub\":1,\"sub\":2}", "@DEEPOBJ@", "@LONGOBJ@"}
TextCases == { [part |-> "token", what |-> w, member |-> Usual, text |-> t, place |-> p, allow |-> Bad(p)]
               : <<w, t, p>> \in ({"rawheader"} \X RawHeaders \X Places) \union ({"rawpayload"} \X RawPayloads \X Places) }
             \union { [part |-> "token", what |-> "rawpayload", member |-> Usual, text |-> t, place |-> p, allow |-> Good(p) \union Bad(p)] : <<t, p>> \in OpenPayloads \X Places }
             (* nothing of this satisfies a rule *)
             \union { [part |-> "token", what |-> "rawpayload", member |-> Usual, text |-> t, place |-> "rule", allow |-> Refused] : t \in RawPayloads \union OpenPayloads }
Shapes == {"@H@.@P@", "@H@.@P@.", "@H@..@S@", ".@P@.@S@", "..", ".", "...", "@H@", "@H@.@P@.@S@.@S@", "@H@.@P@.@S@.", ".@H@.@P@.@S@", "@P@.@H@.@S@", "@H@.@P@.@P@", "@H@.@H@.@S@", "@S@.@S@.@S@",
           "@H@.@P@.AA", "@H@.@P@.!!!", "@H@.@P@.@ZEROS@", "@H@.@P@.@LONG@", "@H@.@P@.@S@AAAA", "@H@.@P@.@S1@", "@H@.@P@.@NUL@", "@H@.@P@.@UTF8@", "@H@@P@@S@", "@H@;@P@;@S@", "@LONG@", "@NUL@", "@UTF8@", "@LONG@.@LONG@.@LONG@",
           "@H@.@P@.@ANOTHER@", "@H@.@NOTP@.@S@", "Bearer", "bearer.@H@.@P@.@S@", "\"@H@.@P@.@S@\"", "{\"access_token\":1}", "-", "%", "%00", "<script>", "@H@.@P@.@S@,", "'@H@.@P@.@S@'"}
OpenShapes == {"@H@.@P@.@S@=", "@H@.@P@.@S@==", "@H@.@P@.@S@@CRLF@", "@H@=.@P@=.@S@"}
ShapeCases == { [part |-> "token", what |-> "shape", member |-> Usual, text |-> t, place |-> p, allow |-> Bad(p)] : <<t, p>> \in Shapes \X Places }
              \union { [part |-> "token", what |-> "shape", member |-> Usual, text |-> t, place |-> p, allow |-> Good(p) \union Bad(p)] : <<t, p>> \in OpenShapes \X Places }

(* one claim of the payload; "rule" is a policy that wants role to be admin *)
Claim == {"exp", "nbf", "iat", "aud", "iss", "sub", "jti", "role"}
ClaimAllow(c, v, place) ==
  CASE place = "rule" -> IF c = "role" /\ v = "\"admin\"" THEN {"ok"} ELSE IF c = "role" /\ v = "[\"admin\", {}]" THEN {"ok"} \union Refused ELSE Refused
    [] c = "exp" /\ v \in {"0", "1", "-1", "1.5"} -> Bad(place)
    [] c = "exp" /\ v \in {"1e400"} -> Bad(place)
    [] v = "absent" /\ ~(c = "aud" /\ place \in {"webaccess", "refreshaccess"}) -> Good(place)
    [] c = "aud" /\ place \in {"webaccess", "refreshaccess"} -> Bad(place)   \* it is for another client, or nobody
    [] OTHER -> Good(place) \union Bad(place)
ClaimCases == { [part |-> "token", what |-> "claim", member |-> Usual, claim |-> c, text |-> v, place |-> p, allow |-> ClaimAllow(c, v, p)] : <<c, v, p>> \in Claim \X Odd \X (Places \union {"rule"}) }

(* ----------------------------------------------------------------- cookies *)
(* @NAME@ is the name of the client's cookie. Nobody was given any of these.       *)
CookieHeaders == {"@NAME@", "@NAME@=", "@NAME@=;", "=", ";;;;", "@NAME@==", "@NAME@=\"", "@NAME@=\"\"", "@NAME@=@NUL@", "@NAME@=@UTF8@", "@NAME@=@LONG@", "@NAME@=deleted", "@NAME@=null", "@NAME@={}", "@NAME@=%00",
                  "@NAME@=../../x", "@NAME@ = x", "@NAME@=x@CRLF@Cookie: y=z", "@NAME@=@RANDOM@", "@NAME@=MTYw|@RANDOM@|x", "@NAME@=@B64@", "@LONG@", "@UTF8@", "@NUL@", "@NAME@=x; @NAME@=y", "@NAME@=@CUT@", "@NAME@=@FLIP@", "@NAME@=@TWICE@",
                  "@NAME@=@OTHERNAME@", "@NAME@=@HALF@"}
CookieCases == { [part |-> "cookie", header |-> h, at |-> a, allow |-> IF a = "session" THEN {"login"} ELSE IF a = "logout" THEN {"page"} ELSE Refused]
                 : <<h, a>> \in CookieHeaders \X {"session", "callback", "logout"} }

(* ------------------------------------------------------- provider's answers *)
(* one member of the answer's JSON is not what it should be *)
Urls == {"\"http://[::1\"", "\"http://%zz/\"", "\"%\"", "\"://x\"", "\":\"", "\"http://a b/\"", "\"/relative\"", "\"relative\"", "\"javascript:alert(1)\"", "\"ftp://x/\"", "\"?q\"", "\"http://\"", "\"http://x:99999/\"", "\"http://x:y/\"", "\"http://\\u0000/\"", "\"\\u007f\""}
(* these are no URLs: nobody can be sent there *)
NoUrls == {"\"http://[::1\"", "\"http://%zz/\"", "\"%\"", "\"://x\"", "\":\"", "\"http://x:y/\"", "\"http://a b/\"", "\"http://\\u0000/\"", "\"\\u007f\"", "\"\\u0000\"", "\"@NUL@\""}
DocMember == {"issuer", "authorization_endpoint", "token_endpoint", "jwks_uri", "userinfo_endpoint"}
DocAllow(m, v) ==
  CASE v \in {"absent", "null", "\"\""} -> IF m = "userinfo_endpoint" THEN Refused \union {"login"} ELSE Refused
    [] ~IsString(v) -> IF m \in {"userinfo_endpoint", "issuer"} THEN Refused \union {"login"} ELSE Refused
    [] m = "authorization_endpoint" -> IF v \in NoUrls THEN Refused ELSE Refused \union {"login", "there"}   \* there: to what the answer says
    [] OTHER -> Refused \union {"login"}
(* whether a login that was begun may be completed *)
DocThen(m, v) == CASE m = "authorization_endpoint" -> Anything [] m \in {"token_endpoint", "jwks_uri"} -> Refused [] OTHER -> Refused \union {"done"}
(* with an opaque access token, which only userinfo vouches for *)
DocOpaque(m, v) == CASE m = "authorization_endpoint" -> Anything [] m = "issuer" -> Refused \union {"done"} [] OTHER -> Refused
DocCases == { [part |-> "doc", member |-> m, text |-> v, allow |-> DocAllow(m, v), after |-> DocThen(m, v), other |-> DocOpaque(m, v)] : <<m, v>> \in DocMember \X (Odd \union Urls) }

KeyMember == {"kty", "n", "e", "kid", "alg", "use"}
KeyTexts == {"\"EC\"", "\"oct\"", "\"rsa\"", "\"RSA \"", "\"OKP\"", "\"AA\"", "\"AQ\"", "\"Ag\"", "\"Aw\"", "\"!!\"", "\"AAAA\"", "\"AAAAAA\"", "\"AAAAAQE\"", "\"AAAAAQ\"", "\"AAAAAAAAAAAB\"", "\"AQAAAAE\"", "\"_____w\"", "\"gAAAAA\"", "\"@EVEN@\"", "\"@HALFN@\"", "\"@NN@\"", "\"=\"", "\"====\"", "\"AQAB\\n\"", "\"other\""}
(* other ways to write what the key really is *)
KeyRight == [n |-> {"\"@0N@\"", "\"@STDN@\""}, e |-> {"\"AAEAAQ\"", "\"AAAAAAEAAQ\"", "\"AQAB====\""}]
KeyText(m) == Odd \union KeyTexts \union (IF m \in DOMAIN KeyRight THEN KeyRight[m] ELSE {})
(* a token signed by the key meant, naming it *)
KeyAllow(m, v) ==
  CASE m \in {"alg", "use"} -> {"ok"} \union Refused
    [] m \in DOMAIN KeyRight /\ v \in KeyRight[m] \union {"\"AQAB\\n\"", "\"=\"", "\"====\""} -> {"ok"} \union Refused
    [] OTHER -> Refused
(* a token of another key in the same answer *)
KeyOther(m, v) == IF (IsString(v) /\ v # "\"@NUL@\"") \/ v = "absent" THEN {"ok"} ELSE {"ok"} \union Refused
KeyCases == { [part |-> "key", member |-> m, text |-> v, allow |-> KeyAllow(m, v), other |-> KeyOther(m, v)] : <<m, v>> \in UNION { {m} \X KeyText(m) : m \in KeyMember } }
KeyBodies == {"", "null", "[]", "1", "\"x\"", "{", "{}", "{\"keys\":null}", "{\"keys\":{}}", "{\"keys\":1}", "{\"keys\":[null]}", "{\"keys\":[1]}", "{\"keys\":[[]]}", "{\"keys\":[{}]}", "{\"keys\":\"@K@\"}", "@DEEP@", "{\"keys\":@DEEP@}", "{\"keys\":[{\"kid\":@DEEP@}]}", "@UTF8@", "@NUL@", "@LONG@", "<html>", "{\"keys\":[@MANY@]}", "[@K@]", "@K@", "{\"error\":1}", "{\"keys\":[]}", "{\"keys\":[@K@", "{\"keys\":[@K@]"}
(* bodies that have the key, somehow *)
OpenBodies == {"{\"keys\":[@K@,@K@]}", "{\"keys\":[@K@,null]}", "{\"KEYS\":[@K@]}", "{\"keys\":[@K@]}garbage", "{\"keys\":[@K@],\"keys\":[]}", "@BOM@{\"keys\":[@K@]}", "{\"keys\":[@K@,@MANY@]}", "{\"keys\":[@K@],\"error\":\"x\"}"}
BodyCases == { [part |-> "body", text |-> v, allow |-> Refused] : v \in KeyBodies } \union { [part |-> "body", text |-> v, allow |-> Refused \union {"ok"}] : v \in OpenBodies }

TokenMember == {"access_token", "id_token", "refresh_token", "expires_in", "token_type", "scope", "error"}
TokenTexts(m) == IF m \in {"access_token", "id_token"} THEN Odd ELSE Odd \ {"\"admin\""}
TokenAllow(m, v, at) ==
  CASE m \in {"access_token", "id_token"} -> IF at = "callback" THEN Refused ELSE Refused \union {"login"}
    [] v = "absent" -> IF at = "callback" THEN {"done"} ELSE {"ok"}
    [] at = "callback" -> Refused \union {"done"}
    [] OTHER -> Refused \union {"ok", "login"}
AnswerCases == { [part |-> "answer", member |-> m, text |-> v, at |-> a, allow |-> TokenAllow(m, v, a)] : <<m, v, a>> \in UNION { {m} \X TokenTexts(m) \X {"callback", "refresh"} : m \in TokenMember } }

(* answers that are hardly HTTP, from any endpoint a request needs; none of them says anything *)
Wires == {"", "@NUL@", "@UTF8@", "@LONG@", "garbage", "HTTP/1.1", "HTTP/1.1 200", "HTTP/1.1 abc OK@CRLF@@CRLF@", "HTTP/1.1 000 X@CRLF@@CRLF@", "HTTP/1.1 99 X@CRLF@@CRLF@", "HTTP/1.1 999 X@CRLF@@CRLF@", "HTTP/9.9 200 OK@CRLF@@CRLF@", "HTTP/2.0 200 OK@CRLF@@CRLF@",
          "HTTP/1.1 200 OK@CRLF@Content-Length: -1@CRLF@@CRLF@", "HTTP/1.1 200 OK@CRLF@Content-Length: 99999999999999999999@CRLF@@CRLF@{}", "HTTP/1.1 200 OK@CRLF@Content-Length: 5@CRLF@@CRLF@{",
          "HTTP/1.1 200 OK@CRLF@Content-Length: 2@CRLF@Content-Length: 3@CRLF@@CRLF@{}", "HTTP/1.1 200 OK@CRLF@Transfer-Encoding: chunked@CRLF@@CRLF@zz@CRLF@{}", "HTTP/1.1 200 OK@CRLF@Transfer-Encoding: chunked@CRLF@@CRLF@5@CRLF@{}",
          "HTTP/1.1 200 OK@CRLF@Transfer-Encoding: chunked@CRLF@@CRLF@ffffffffffffffff@CRLF@{}", "HTTP/1.1 200 OK@CRLF@Transfer-Encoding: gzip@CRLF@@CRLF@{}", "HTTP/1.1 200 OK@CRLF@Content-Encoding: gzip@CRLF@Content-Length: 2@CRLF@@CRLF@{}",
          "HTTP/1.1 200 OK@CRLF@X@CRLF@@CRLF@", "HTTP/1.1 200 OK@CRLF@: x@CRLF@@CRLF@", "HTTP/1.1 200 OK@CRLF@X: @NUL@@CRLF@@CRLF@", "HTTP/1.1 200 OK@CRLF@X: @MB@@MB@@CRLF@@CRLF@{}", "HTTP/1.1 100 Continue@CRLF@@CRLF@", "HTTP/1.1 101 Switching Protocols@CRLF@@CRLF@",
          "HTTP/1.1 302 Found@CRLF@@CRLF@", "HTTP/1.1 302 Found@CRLF@Location: @CRLF@@CRLF@", "HTTP/1.1 302 Found@CRLF@Location: http://[::1@CRLF@@CRLF@", "HTTP/1.1 302 Found@CRLF@Location: %zz@CRLF@@CRLF@", "HTTP/1.1 302 Found@CRLF@Location: javascript:x@CRLF@@CRLF@", "HTTP/1.1 307 X@CRLF@Location: @SELF@@CRLF@Content-Length: 0@CRLF@@CRLF@",
          "HTTP/1.1 401 Unauthorized@CRLF@WWW-Authenticate: @LONG@@CRLF@Content-Length: 0@CRLF@@CRLF@", "HTTP/1.1 500 X@CRLF@Content-Length: 4@CRLF@@CRLF@null", "HTTP/1.1 500 X@CRLF@Content-Length: 2@CRLF@@CRLF@[]", "HTTP/1.1 400 X@CRLF@Content-Length: 11@CRLF@@CRLF@{\"error\":1}",
          "HTTP/1.1 400 X@CRLF@Content-Length: 25@CRLF@@CRLF@{\"error\":\"x\",\"scopes\":[1]}", "HTTP/1.1 204 No Content@CRLF@@CRLF@", "HTTP/1.1 304 Not Modified@CRLF@@CRLF@", "<html></html>"}
(* these say 200: to userinfo that is all it takes *)
SaysOk(x) == Len(x) >= 12 /\ SubSeq(x, 9, 12) = " 200"
WireKinds == {<<"api", "jwks">>, <<"login", "discovery">>, <<"callback", "token">>, <<"callback", "jwks">>, <<"callbackopaque", "userinfo">>, <<"refresh", "token">>, <<"sessionopaque", "userinfo">>}
(* a session may end with it, or a new login begin *)
WireAllow(k, e, x) == Refused \union (IF k \in {"refresh", "sessionopaque"} THEN {"login"} ELSE {}) \union (IF e = "userinfo" /\ SaysOk(x) THEN {Normal(k)} ELSE {})
(* afterwards it answers properly again *)
WireAfter(k) == {Normal(k)} \union (IF k \in {"refresh", "sessionopaque"} THEN {"login"} ELSE {})
WireCases == { [part |-> "wire", kind |-> ke[1], endpoint |-> ke[2], text |-> x, allow |-> WireAllow(ke[1], ke[2], x), after |-> WireAfter(ke[1])] : <<ke, x>> \in WireKinds \X Wires }

(* ------------------------------------------------------------ configurations *)
(* Specs a resource may be given; after them the right one. Requests to /x of the       *)
(* service meanwhile: protected if an entry that covers it has a policy.                *)
Paths == {"absent", "[]", "null"}
PathText == {"", "/", "//", "/x", "x", "*", "/*", "/x/*", "/x/", "x/", "/**", "/%", "/@NUL@", "/@LONGPATH@", " ", "/x?y", "@UTF8@", "/oidc/callback", "/oidc/logout", "/x/oidc/callback", "/@SLASHES@"}
Entry == [exact : PathText \union {"absent"}, prefix : PathText \union {"absent"}]
Absent == [exact |-> "absent", prefix |-> "absent"]
Policies == {"absent", "null", "[]", "@POLICY@", "[null]", "[{}]"}
CoversX(e) == \/ e.exact \in {"/x", "/x/"}
              \/ e.prefix \in {"/x", "/", "/*", "/x/*", "/x/"}
              \/ (e.exact \in {"absent", ""} /\ e.prefix \in {"absent", ""})
PolicyAllow(e, p) == IF p = "@POLICY@" /\ CoversX(e) THEN Refused ELSE Anything
PolicyCases == { [part |-> "policy", spec |-> "", entry |-> e, policies |-> p, allow |-> PolicyAllow(e, p)]
                 : <<e, p>> \in ({ e \in Entry : Differ(e, Absent) <= 1 } \X Policies) \union (Entry \X {"@POLICY@"}) }
               \union { [part |-> "policy", spec |-> s, entry |-> Absent, policies |-> "", allow |-> Anything]
                 : s \in {"absent", "null", "{}", "{\"targets\":null}", "{\"targets\":[]}", "{\"targets\":[null]}", "{\"targets\":[{}]}", "{\"targets\":[{\"serviceName\":\"@SVC@\"}]}", "{\"targets\":[{\"serviceName\":\"@SVC@\",\"paths\":null}]}",
                          "{\"targets\":[{\"serviceName\":\"@SVC@\",\"paths\":[]}]}", "{\"targets\":[{\"serviceName\":\"@SVC@\",\"paths\":[null]}]}", "{\"targets\":[{\"serviceName\":\"@SVC@\",\"paths\":[{}]}]}", "{\"unknown\":1}", "{\"target\":[]}"} }
(* the policies of an entry that is fine *)
PolicyTexts == {"{\"policyType\":\"jwt\",\"config\":\"@CFG@\",\"rules\":null}", "{\"policyType\":\"jwt\",\"config\":\"@CFG@\",\"rules\":[]}", "{\"policyType\":\"jwt\",\"config\":\"@CFG@\",\"rules\":[{}]}", "{\"policyType\":\"jwt\",\"config\":\"@CFG@\",\"rules\":[null]}",
                "{\"policyType\":\"jwt\",\"config\":\"@CFG@\",\"rules\":[{\"claim\":\"a\",\"values\":null}]}", "{\"policyType\":\"jwt\",\"config\":\"@CFG@\",\"rules\":[{\"claim\":\"\",\"values\":[]}]}", "{\"policyType\":\"jwt\",\"config\":\"@CFG@\",\"rules\":[{\"claim\":\".\",\"values\":[\"\"]}]}",
                "{\"policyType\":\"jwt\",\"config\":\"@CFG@\",\"rules\":[{\"claim\":\"...\",\"values\":[\"x\"],\"match\":\"ANY\"}]}", "{\"policyType\":\"jwt\",\"config\":\"@CFG@\",\"rules\":[{\"claim\":\"a\",\"values\":[\"x\"],\"match\":\"SOME\",\"source\":\"elsewhere\"}]}",
                "{\"policyType\":\"jwt\",\"config\":\"@CFG@\",\"rules\":[{\"claim\":\"scope\",\"values\":[\"@UTF8@\",\"\\\"\"]}]}", "{\"policyType\":\"jwt\",\"config\":\"\"}", "{\"policyType\":\"jwt\",\"config\":\"/\"}", "{\"policyType\":\"jwt\",\"config\":\"../@CFG@\"}",
                "{\"policyType\":\"jwt\",\"config\":\"nobody\"}", "{\"policyType\":\"jwt\"}", "{\"policyType\":\"\",\"config\":\"@CFG@\"}", "{\"policyType\":\"JWT\",\"config\":\"@CFG@\"}", "{\"policyType\":\"saml\",\"config\":\"@CFG@\"}", "{\"config\":\"@CFG@\"}",
                "{\"policyType\":\"oidc\",\"config\":\"@CFG@\"}", "{\"policyType\":\"oidc\",\"config\":\"\"}", "{\"policyType\":\"jwt\",\"config\":\"@CFG@\",\"redirectUri\":\"%zz\"}", "{}"}
PolicyTextCases == { [part |-> "policytext", text |-> t, allow |-> Refused] : t \in PolicyTexts }
(* no such provider: nobody gets in *)
ConfigUrls == {"absent", "\"\"", "\" \"", "\"x\"", "\"example.invalid/keys\"", "\"http://\"", "\"http://%zz\"", "\"http://[::1\"", "\"http://127.0.0.1:0/\"", "\"http://127.0.0.1:1/\"", "\"http://127.0.0.1:99999/\"", "\"ftp://127.0.0.1/\"", "\"file:///etc/passwd\"", "\"//127.0.0.1/x\"", "\"http://@UTF8@\"", "\"http:// /\"", "\"@LONG@\"", "\"http://\\u0000\"", "\"http://127.0.0.1:1/?a=%\"", "\"http://user:pw@127.0.0.1:1/\""}
ConfigCases == { [part |-> "config", kind |-> k, text |-> "{\"" \o (IF k = "jwt" THEN "jwksUrl" ELSE "discoveryUrl") \o "\":" \o (IF u = "absent" THEN "null" ELSE u) \o (IF k = "jwt" THEN "}" ELSE ",\"clientId\":\"c\"}"), allow |-> Refused] : <<k, u>> \in {"jwt", "oidc"} \X ConfigUrls }
               \union { [part |-> "config", kind |-> k, text |-> t, allow |-> Refused] : <<k, t>> \in {"jwt", "oidc"} \X {"absent", "null", "{}", "{\"unknown\":{}}"} }
               (* the provider is right, something else is not *)
               \union { [part |-> "config", kind |-> "oidc", text |-> "{\"discoveryUrl\":\"@URL@\"," \o t \o "}", allow |-> Refused \union {"login"}]
                        : t \in {"\"clientId\":\"\"", "\"clientId\":\"@UTF8@\"", "\"clientId\":\"@LONG@\"", "\"clientId\":\"a;b\\u0000\"", "\"clientId\":\"c\",\"clientSecretRef\":{}", "\"clientId\":\"c\",\"clientSecretRef\":{\"name\":\"\"}", "\"clientId\":\"c\",\"clientSecretRef\":{\"name\":\"../x\",\"key\":\"y\"}",
                                 "\"clientId\":\"c\",\"clientSecretRef\":{\"name\":\"nobody\",\"key\":\"\"}", "\"clientId\":\"c\",\"clientSecretRef\":null", "\"clientId\":\"c\",\"authMethod\":\"none\"", "\"clientId\":\"c\",\"authMethod\":\"\"", "\"clientId\":\"c\",\"scopes\":null", "\"clientId\":\"c\",\"scopes\":[]", "\"clientId\":\"c\",\"scopes\":[\"\"]", "\"clientId\":\"c\",\"scopes\":[\"@UTF8@\",\"a b\",\"&\"]", "\"clientId\":\"c\",\"clientSecret\":\"@UTF8@\"", "\"clientId\":\"c\",\"unknown\":1"} }

(* ------------------------------------------------------------------- paths *)
Atom == {"", "*", ".", "..", "%2f", "%2F..", "%00", "@NUL@", "@UTF8@", "?", "?q", "#", "#/a", ";x", " ", "@CRLF@", "@LONGPATH@", "\\", "..\\..", "/", "//", "/*", "**", "/../..", "/.", "~", "%", "%zz", "@SLASHES@", "x/../../../y", "*/*", "oidc", "oidc/callback/", "oidc/logout/x", "\"", "{}", "GET"}
(* what is textually below /a is covered by the prefixes /a and /, what is below / by /; exact /e covers only /e and what has slashes at its end *)
PathCases == { [part |-> "path", service |-> s, method |-> "GET", path |-> (IF s = "root" THEN "/" ELSE "/a/") \o x, allow |-> Refused] : <<s, x>> \in {"root", "a", "roota"} \X Atom }
             \union { [part |-> "path", service |-> "root", method |-> "GET", path |-> x, allow |-> Refused] : x \in {"", "*", "a", "http://x/", "..", "a/b", "*/*", "?"} }
             \union { [part |-> "path", service |-> "e", method |-> "GET", path |-> x, allow |-> Refused] : x \in {"/e", "/e/", "/e//", "/e/@SLASHES@"} }
             \union { [part |-> "path", service |-> s, method |-> "GET", path |-> "/a" \o x, allow |-> Refused \union {"ok"}] : <<s, x>> \in {"a", "e"} \X (Atom \ {"", "/", "//", "@SLASHES@", "/*", "/../..", "/."}) }

             \union { [part |-> "path", service |-> s, method |-> m, path |-> "/a/b", allow |-> Refused] : <<s, m>> \in {"root", "a", "roota"} \X {"", "get", "Get", " GET", "GET ", "PROPFIND", "PATCH", "HEAD", "OPTIONS", "CONNECT", "ALL", "all", "*", "@NUL@", "@UTF8@", "@LONG@", "GET,POST"} }

(* ------------------------------------------------ other fields of a request *)
(* of a login (the request that begins it, or its callback with what is in that field) *)
Texts == {"", " ", "@NUL@", "@UTF8@", "@CRLF@", "@CRLF@X: y", "@LONG@", "%", "%zz", "&", "a&b=c", "<script>", "\"", "'", "javascript:x", "//x", "[::1", "x:y:z", "{}", "null", "\\"}
FieldCases == { [part |-> "field", field |-> f, text |-> x, allow |-> Refused \union {"login"}] : <<f, x>> \in {"scheme", "host", "code", "state", "error"} \X Texts }

(* ------------------------------------------------------- bytes on the wire *)
(* messages made of a request that is refused: whatever still is a request for the same is refused *)
BytesCases == { [part |-> "bytes", how |-> h, allow |-> Refused] : h \in {"random", "flip", "cut", "append", "unknown", "repeat", "swap", "length", "zero"} }

(* -------------------------------------------------------------------------- *)
All == << StructureCases, HeaderCases, TextCases, ShapeCases, ClaimCases, CookieCases, DocCases, KeyCases, BodyCases, AnswerCases, WireCases, PolicyCases, PolicyTextCases, ConfigCases, PathCases, FieldCases, BytesCases >>
(* Malformed input never lets a protected request through: where something may get in,  *)
(* it is genuine, or what is malformed has no bearing on it.                             *)
Lets(c) == {"ok", "done"} \cap c.allow # {}
ASSUME \A c \in StructureCases : c.has # Part => c.allow = {"error"}
ASSUME \A c \in StructureCases : Lets(c) => c.prot = "open" \/ (c.cred /\ c.has = Part)
ASSUME \A c \in HeaderCases : Lets(c) => c.member.alg = Usual.alg /\ c.member.kid = Usual.kid
ASSUME \A c \in CookieCases : ~Lets(c)
ASSUME \A c \in KeyCases : Lets(c) => c.member \in {"alg", "use"} \/ c.member \in DOMAIN KeyRight
ASSUME \A c \in AnswerCases : Lets(c) => c.member \notin {"access_token", "id_token"}
ASSUME \A c \in WireCases : Lets(c) => c.endpoint = "userinfo" /\ SaysOk(c.text)
ASSUME \A c \in ConfigCases \union PolicyTextCases \union FieldCases \union BytesCases : ~Lets(c)
ASSUME \A i \in DOMAIN All : \A c \in All[i] : c.allow # {}
===================================================================================
