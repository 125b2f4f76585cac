------------------------------ MODULE StateCookie ------------------------------
(* When a login callback's state cookie counts (C09): made with the adapter's    *)
(* keys, for this client's cookie, not expired, holding a state that is not      *)
(* empty and that the callback repeats.                                          *)
EXTENDS Naturals, TLC, Json, IOUtils, SequencesExt, FiniteSets
Keys == {"adapter", "other hash key", "other block key", "other keys", "no block key"}
Names == {"own", "other client", "bare"}          \* the cookie name the value was made for
Exps == {"hour", "minute", "second ago", "hour ago", "zero", "year ago"}
Values == {"state", "empty", "other", "absent"}
Payloads == {"proper", "no payload", "not a document", "truncated"}
Params == {"state", "empty", "longer", "shorter"}
Sent == {"own", "other client"}                   \* the name it is sent under

Cookie == [key : Keys, name : Names, exp : Exps, value : Values, payload : Payloads, sent : Sent]
Counts(c) == /\ c.key = "adapter" /\ c.name = "own" /\ c.exp \in {"hour", "minute"}
             /\ c.value \in {"state", "other"} /\ c.payload = "proper" /\ c.sent = "own"
Accept(c, param) == Counts(c) /\ c.value = "state" /\ param = "state"

(* whatever differs from a good cookie in one respect is rejected, and nothing else is needed *)
Good == [key |-> "adapter", name |-> "own", exp |-> "hour", value |-> "state", payload |-> "proper", sent |-> "own"]
Differs(c) == Cardinality({ f \in DOMAIN Good : c[f] # Good[f] })
ASSUME Accept(Good, "state")
ASSUME \A c \in Cookie : \A p \in Params : Accept(c, p) => p = "state" /\ c.exp \in {"hour", "minute"} /\ [c EXCEPT !.exp = "hour"] = Good
ASSUME "OUT" \in DOMAIN IOEnv => ndJsonSerialize(IOEnv.OUT,
  SetToSeq({ [cookie |-> c, param |-> p, accept |-> Accept(c, p)] : <<c, p>> \in { x \in Cookie \X Params : Differs(x[1]) <= 2 } }))
===============================================================================
