--------------------------------- MODULE Logout --------------------------------
(* Where a logout leads (C11): to the path that was logged out from, as a path   *)
(* on the same host.                                                             *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils, SequencesExt, FiniteSets
(* path logged out from, by what it is *)
Plain == { "/a", "/a/b", "/a/b/c/d/e", "/a.b", "/a%20b", "/A", "/a/", "/a-b_c~d", "/oidc", "/a/oidc", "/a/oidc/logout/b", "/a/oidc/callback/b", "/oidclogout", "/a:b", "/a@b", "/www.example.org",
           "/a;v=1", "/a,b", "/%2e%2e", "/a%2fb", "/http:/x", "/x/http://evil.example" }
(* paths that would lead to another host if taken literally *)
Foreign == { "//evil.example", "///evil.example", "//evil.example/a", "/\\evil.example", "\\\\evil.example", "\\/evil.example", "//", "//a//b", "/\\/evil.example",
             "https://evil.example", "http://evil.example/a", "javascript:alert(1)", "evil.example" }
Root == { "", "/" }
Location(p) == CASE p \in Root -> "/" [] OTHER -> p
Case(p) == [path |-> p \o "/oidc/logout", exact |-> p \notin Foreign, location |-> Location(p)]
ASSUME \A p \in Plain : Case(p).exact /\ Case(p).location = p
ASSUME "OUT" \in DOMAIN IOEnv => ndJsonSerialize(IOEnv.OUT, SetToSeq({ Case(p) : p \in Plain \union Foreign \union Root }))
===============================================================================
