----------------------------- MODULE CookieHeader ------------------------------
(* Which cookie headers carry a session of the policy's client (C10): one of its *)
(* cookies under the client's cookie name. Headers with several cookies of that  *)
(* name are open if they disagree.                                               *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils, SequencesExt, FiniteSets
Big == "TIER" \in DOMAIN IOEnv /\ IOEnv.TIER = "thorough"
(* names: the client's; that of a client whose id begins with or is the beginning *)
(* of the client's; in other case; cut; values: live sessions of the client,      *)
(* ended ones, other things                                                       *)
Names == {"own", "longer client", "shorter client", "upper case", "cut", "bare", "authorization"}
Values == {"live", "live2", "ended", "never issued", "empty", "state", "live prefix", "live longer", "live upper case"}
Crumb == [name : Names, value : Values]
Alive == {"live", "live2"}
Headers == {<<>>} \union { <<a>> : a \in Crumb }
           \union { <<a, b>> : <<a, b>> \in { x \in Crumb \X Crumb : x[1].value \in {"live", "ended", "empty"} /\ x[2].value \in {"live", "live2", "never issued"} } }
           \union (IF Big THEN { <<a, b, d>> : <<a, b, d>> \in { x \in Crumb \X Crumb \X Crumb : \A i \in 1..3 : x[i].value \in {"live", "ended"} } } ELSE {})
Own(h) == { h[i].value : i \in { i \in 1..Len(h) : h[i].name = "own" } }
(* the sessions it may pass with; TRUE if it may be sent to login *)
Sessions(h) == Own(h) \cap Alive
Login(h) == \/ Own(h) = {}
            \/ \E v \in Own(h) : v \notin Alive
Seps == {"; ", ";"}
ASSUME \A h \in Headers : Sessions(h) # {} \/ Login(h)
ASSUME \A h \in Headers : (\A i \in 1..Len(h) : h[i].name # "own" \/ h[i].value \notin Alive) => Sessions(h) = {}
ASSUME "OUT" \in DOMAIN IOEnv => ndJsonSerialize(IOEnv.OUT,
  SetToSeq({ [header |-> h, sep |-> s, pass |-> SetToSeq(Sessions(h)), login |-> Login(h)] : <<h, s>> \in Headers \X Seps }))
===============================================================================
