----------------------------- MODULE Gen_HungProvider -----------------------------
(* The cases replayed into the running adapter (C19): what it knows of the provider,    *)
(* which endpoints do not answer and how, the request, and what it may come to.         *)
EXTENDS ProviderNeeds, TLC, Json, IOUtils, SequencesExt, FiniteSets
Range2(s) == { s[i] : i \in DOMAIN s }
Web == AllKinds \ {"api", "apinew"}
(* how an endpoint does not answer: the last two, of an endpoint never used before, *)
(* concern the connection itself                                                     *)
Hows == {"silent", "status", "headers", "body", "drip", "redirect", "errorbody"}
Fresh == {"noaccept", "tls"}
Hung(k) == IF k \in {"api", "apinew"} THEN {{"jwks"}} ELSE { {e} : e \in Endpoints } \union {Endpoints}
(* the document is known before the keys are; knowing the keys without is not possible *)
Known(k) == IF k \in {"api", "apinew"} THEN {<<TRUE, FALSE>>, <<TRUE, TRUE>>} ELSE {<<FALSE, FALSE>>, <<TRUE, FALSE>>, <<TRUE, TRUE>>}
(* whether none of these endpoints can have been used with the adapter knowing this *)
Unused(h, kn) == ("discovery" \in h => ~kn[1]) /\ ("jwks" \in h => ~kn[2])
Faces(k, kn, h) == Range2(Needs(k, kn[1], kn[2])) \intersect h # {}
(* the provider vouches for an opaque token by the status, which precedes the body *)
Vouched(how) == how \in {"body", "drip"}
(* without the document nobody knows where to log in *)
Reject(k, kn, h) == {"reject"} \union (IF k \in Web /\ (kn[1] \/ "discovery" \notin h) THEN {"login"} ELSE {})
Allowed(k, kn, h, how) ==
  IF ~Faces(k, kn, h) THEN {Normal(k)}
  ELSE IF Range2(Needs(k, kn[1], kn[2])) \intersect h = {"userinfo"} /\ Vouched(how) THEN Reject(k, kn, h) \union {Normal(k)}
  ELSE Reject(k, kn, h)
(* once the provider answers again; a session may have ended meanwhile *)
After(k) == {Normal(k)} \union (IF k \in {"session", "sessionopaque", "refresh"} THEN {"login"} ELSE {})
Case(k, kn, h, how) == [kind |-> k, doc |-> kn[1], keys |-> kn[2], hung |-> SetToSeq(h), how |-> how,
                        faces |-> Faces(k, kn, h), allow |-> SetToSeq(Allowed(k, kn, h, how)), after |-> SetToSeq(After(k))]
Cases == UNION { { Case(k, kn, h, how) : how \in Hows \union (IF Unused(h, kn) THEN Fresh ELSE {}) } : <<k, kn, h>> \in
                 { <<k, kn, h>> \in AllKinds \X (BOOLEAN \X BOOLEAN) \X SUBSET Endpoints : kn \in Known(k) /\ h \in Hung(k) } }
ASSUME \A c \in Cases : c.faces => ("ok" \notin Range2(c.allow) \/ (c.how \in {"body", "drip"} /\ "userinfo" \in Range2(c.hung)))
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
===================================================================================
