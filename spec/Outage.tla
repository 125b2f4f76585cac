---------------------------------- MODULE Outage ----------------------------------
(* A configuration whose provider comes and goes (C17). What the adapter has obtained  *)
(* of the discovery document and of the keys is known to the specification only as     *)
(* "yes" (a request needed it and it could be obtained), "no" (it could not) or         *)
(* "maybe" (it could be, but nothing needed it): it is free to fetch early or late.     *)
(* Each step carries the outcomes it may have. Sticky: a failure is remembered.         *)
EXTENDS Naturals, FiniteSets, Sequences, TLC, Json
CONSTANTS Kind, Sticky          \* "jwt" or "oidc"
VARIABLES disc, jwks, doc, keys, pend, sess, act
vars == <<disc, jwks, doc, keys, pend, sess, act>>
Bool == {TRUE, FALSE}
Init == /\ disc = "up" /\ jwks = "up" /\ doc = "none" /\ keys = "none" /\ pend = FALSE /\ sess = "no" /\ act = <<"init", {}>>
Exists == doc # "none"
(* the configuration is created, or made anew with its next version *)
Create ==
  /\ doc' = (IF disc = "up" \/ Kind = "jwt" THEN "maybe" ELSE "no")
  /\ keys' = (IF jwks = "up" /\ doc' # "no" THEN "maybe" ELSE "no")
  /\ act' = <<"create", {}>> /\ UNCHANGED <<disc, jwks, pend, sess>>
Broken == Sticky /\ (doc = "no" \/ keys = "no")
Disc(m) == Kind = "oidc" /\ disc # m /\ disc' = m /\ act' = <<"discovery", m>> /\ UNCHANGED <<jwks, doc, keys, pend, sess>>
Jwks(m) == jwks # m /\ jwks' = m /\ act' = <<"jwks", m>> /\ UNCHANGED <<disc, doc, keys, pend, sess>>
(* what a request that needs the document, or the keys as well, finds *)
Doc == IF Kind = "jwt" \/ doc = "yes" \/ (disc = "up" /\ ~Broken) THEN "yes" ELSE doc
Keys == IF keys = "yes" THEN "yes" ELSE IF Doc = "no" THEN "no" ELSE IF jwks = "up" /\ Doc = "yes" /\ ~Broken THEN "yes"
        ELSE IF keys = "no" /\ jwks = "down" THEN "no" ELSE "maybe"
NeedDoc == doc' = Doc /\ keys' = (IF keys = "no" /\ doc = "no" /\ Doc = "yes" /\ jwks = "up" THEN "maybe" ELSE keys)
NeedBoth == doc' = Doc /\ keys' = Keys
MayNeedKeys == doc' = Doc /\ keys' = (IF Keys = keys THEN keys ELSE "maybe")
Api == Kind = "jwt" /\ Exists /\ NeedBoth /\ UNCHANGED <<disc, jwks, pend, sess>>
       /\ act' = <<"api", CASE Keys = "yes" -> {"ok"} [] Keys = "no" -> {"reject"} [] OTHER -> {"ok", "reject"}>>
Begin == Kind = "oidc" /\ Exists /\ NeedDoc /\ UNCHANGED <<disc, jwks, sess>>
         /\ act' = <<"begin", CASE Doc = "yes" -> {"login"} [] Doc = "no" -> {"reject"} [] OTHER -> {"login", "reject"}>>
         /\ pend' = (pend \/ Doc = "yes")
Callback == Kind = "oidc" /\ Exists /\ pend /\ NeedBoth /\ UNCHANGED <<disc, jwks>> /\ pend' = FALSE
            /\ LET W == IF Doc = "no" \/ Keys = "no" THEN {"reject"} ELSE IF Doc = "yes" /\ Keys = "yes" THEN {"done"} ELSE {"done", "reject"}
               IN  act' = <<"callback", W>> /\ sess' = (IF W = {"done"} THEN "yes" ELSE IF W = {"reject"} THEN sess ELSE "maybe")
(* a session that was lost leads to a login, which does not need the keys *)
Session == Kind = "oidc" /\ Exists /\ sess # "no" /\ (IF sess = "yes" THEN NeedBoth ELSE MayNeedKeys) /\ UNCHANGED <<disc, jwks, pend>>
           /\ LET sure == Doc = "yes" /\ Keys = "yes"
                  out == Doc = "no" \/ Keys = "no"
              IN  /\ act' = <<"session", (IF out THEN {} ELSE {"ok"}) \union (IF sure /\ sess = "yes" THEN {} ELSE IF Doc = "no" THEN {"reject"} ELSE {"login", "reject"})>>
                  /\ sess' = (IF sure /\ sess = "yes" THEN "yes" ELSE "maybe")
Next == Create \/ (\E m \in {"up", "down"} : Disc(m) \/ Jwks(m)) \/ Api \/ Begin \/ Callback \/ Session
Spec == Init /\ [][Next]_vars
View == <<disc, jwks, doc, keys, pend, sess>>
(* ---- the property ---- *)
Use == act'[1] \in {"api", "begin", "callback", "session"}
Served == [][(Use /\ disc = "up" /\ jwks = "up") => act'[2] \in {{"ok"}, {"login"}, {"done"}} \/ (sess = "maybe" /\ act'[1] = "session")]_vars
NeverThrough == [][(Use /\ keys = "no" /\ jwks = "down") => act'[2] \intersect {"ok", "done"} = {}]_vars
Nowhere == [][(Use /\ doc = "no" /\ disc = "down") => act'[2] = {"reject"}]_vars
KeptOnceUsed == [][(Use /\ doc = "yes" /\ keys = "yes") => (doc' = "yes" /\ keys' = "yes")]_vars
Abs == [disc |-> disc, jwks |-> jwks, doc |-> doc, keys |-> keys, pend |-> pend, sess |-> sess]
AbsNext == [disc |-> disc', jwks |-> jwks', doc |-> doc', keys |-> keys', pend |-> pend', sess |-> sess']
EmitStep == PrintT("@@" \o ToJson([from |-> Abs, act |-> act', to |-> AbsNext]))
EmitState == PrintT("##" \o ToJson([state |-> Abs]))
===================================================================================
