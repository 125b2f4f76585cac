-------------------------------- MODULE Tokens --------------------------------
(* When a token is accepted (C06). A token is described by how it was made;   *)
(* the provider publishes key "k1" under the id "kid1", "k2" under "kid2" and  *)
(* "k3" under "KID1". "near" are ids that resemble "kid1": "kid1 ", "kid", "kid11". *)
EXTENDS Naturals, Sequences, FiniteSets

RsaAlgs == {"RS256", "RS384", "RS512"}
PssAlgs == {"PS256"}
Algs == RsaAlgs \union PssAlgs \union {"none", "None", "HS256", "HS256mod"}
Kids == {"kid1", "kid2", "KID1", "Kid1", "near", "unknown", "missing", "empty", "number", "jwk"}   \* "jwk": kid1, and the signer's key in the header
Signers == {"k1", "k2", "k3", "foreign"}
Tampers == {"no", "payload", "header", "alg", "sig", "strip"}
Exps == {"absent", "future", "past", "justpast"}
Nbfs == {"absent", "past", "future"}

Token == [alg : Algs, kid : Kids, signer : Signers, tamper : Tampers, exp : Exps, nbf : Nbfs]

Published(kid) == CASE kid \in {"kid1", "jwk"} -> "k1" [] kid = "kid2" -> "k2" [] kid = "KID1" -> "k3" [] OTHER -> "nobody"

Genuine(t) == /\ t.alg \in RsaAlgs \union PssAlgs
              /\ t.tamper = "no"
              /\ t.signer = Published(t.kid)
Expired(t) == t.exp \in {"past", "justpast"}
InTime(t) == ~Expired(t) /\ t.nbf # "future"
Valid(t) == Genuine(t) /\ InTime(t)

(* where a token is presented, and, for access tokens of an OIDC flow, what the *)
(* userinfo endpoint says to it                                                 *)
UserInfos == {"200", "401", "500", "204", "drop"}
Contexts == [use : {"jwt-access", "jwt-id", "oidc-id"}, userinfo : {"-"}]
            \union [use : {"oidc-access"}, userinfo : UserInfos]

(* The verdicts the property allows                                             *)
Allowed(c, t) ==
  IF Valid(t) THEN (IF t.alg \in PssAlgs THEN {"accept", "reject"} ELSE {"accept"})
  ELSE IF /\ c.use = "oidc-access" /\ c.userinfo = "200"
          /\ ~(Genuine(t) /\ Expired(t))
       THEN {"accept", "reject"}
       ELSE {"reject"}
(* PSS signatures are made with RSA keys too: whether they are supported is left *)
(* open when the token is valid; never when it is not.                           *)

(* access tokens that are no JWTs at all: only userinfo can vouch for them       *)
OpaqueShapes == {"word", "two.parts", "four.parts.in.it", "dots...", "long"}
AllowedOpaque(c) == IF c.use = "oidc-access" /\ c.userinfo = "200" THEN {"accept"} ELSE {"reject"}
===============================================================================
