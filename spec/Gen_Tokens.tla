------------------------------ MODULE Gen_Tokens ------------------------------
EXTENDS Tokens, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt, Randomization
Big == "TIER" \in DOMAIN IOEnv /\ IOEnv.TIER = "thorough"
Case(c, t) == [ctx |-> c, tok |-> t, opaque |-> "", allow |-> SetToSeq(Allowed(c, t))]
(* tampering is independent of the validity period: it is combined with one only *)
Core == { t \in Token : t.tamper = "no" \/ (t.exp = "future" /\ t.nbf = "absent") }
(* tokens that differ from a valid one in at most one respect *)
Near == { t \in Core : Cardinality({ q \in { <<t.alg \in RsaAlgs, 1>>, <<t.kid # "jwk" /\ t.signer = Published(t.kid), 2>>, <<t.tamper = "no", 3>>, <<~Expired(t), 4>>, <<t.nbf # "future", 5>> } : ~q[1] }) <= 1 }
Jwt == { c \in Contexts : c.use \in {"jwt-access", "jwt-id"} }
Oidc == Contexts \ Jwt
Opaque == { [ctx |-> c, tok |-> [alg |-> "-"], opaque |-> s, allow |-> SetToSeq(AllowedOpaque(c))] : <<c, s>> \in Contexts \X OpaqueShapes }
Cases == { Case(c, t) : <<c, t>> \in Jwt \X Core } \union { Case(c, t) : <<c, t>> \in Oidc \X Near }
         \union { Case(c, t) : <<c, t>> \in Oidc \X (IF Big THEN Core ELSE RandomSubset(250, Core)) }
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases) \o SetToSeq(Opaque))
===============================================================================
