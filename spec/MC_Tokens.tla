------------------------------ MODULE MC_Tokens -------------------------------
(* The validation as the adapter performs it, step by step: format, key        *)
(* lookup, signature, validity period, userinfo. Checked against Allowed.      *)
EXTENDS Tokens, TLC
VARIABLES tok, ctx, pc, verdict, asked
vars == <<tok, ctx, pc, verdict, asked>>

Init == /\ tok \in Token /\ ctx \in Contexts
        /\ pc = "parse" /\ verdict = "none" /\ asked = FALSE

End(v) == verdict' = v /\ pc' = "done"
Oidc == ctx.use = "oidc-access"
Fail == IF Oidc THEN pc' = "userinfo" /\ UNCHANGED verdict ELSE End("reject")

Key(kid) == CASE kid \in {"kid1", "jwk"} -> {"k1"} [] kid = "kid2" -> {"k2"} [] kid = "KID1" -> {"k3"} [] OTHER -> {}
Parse == /\ pc = "parse" /\ UNCHANGED <<tok, ctx, asked>>
         /\ IF tok.kid \in {"missing", "empty", "number"} THEN Fail
            ELSE pc' = "key" /\ UNCHANGED verdict
LookUp == /\ pc = "key" /\ UNCHANGED <<tok, ctx, asked>>
          /\ IF Key(tok.kid) = {} THEN Fail ELSE pc' = "signature" /\ UNCHANGED verdict
(* an RSA public key verifies only RSA signatures; HMAC and "none" need other key types *)
Signature == /\ pc = "signature" /\ UNCHANGED <<tok, ctx, asked>>
             /\ IF tok.alg \in RsaAlgs \union PssAlgs /\ tok.tamper = "no" /\ tok.signer \in Key(tok.kid)
                THEN pc' = "period" /\ UNCHANGED verdict ELSE Fail
Period == /\ pc = "period" /\ UNCHANGED <<tok, ctx, asked>>
          /\ CASE tok.exp \in {"past", "justpast"} -> End("reject")
               [] tok.exp \notin {"past", "justpast"} /\ tok.nbf = "future" -> Fail
               [] OTHER -> End("accept")
Ask == /\ pc = "userinfo" /\ UNCHANGED <<tok, ctx>> /\ asked' = TRUE
       /\ End(IF ctx.userinfo = "200" THEN "accept" ELSE "reject")
Next == Parse \/ LookUp \/ Signature \/ Period \/ Ask
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Sound == verdict # "none" => verdict \in Allowed(ctx, tok)
NoForgery == (verdict = "accept" /\ ~asked) => Valid(tok)
OnlyOidcAsks == asked => ctx.use = "oidc-access"
ExpiredNeverPasses == (verdict = "accept") => ~(Genuine(tok) /\ Expired(tok))
Terminates == <>(verdict # "none")
===============================================================================
