--------------------------------- MODULE Serving ---------------------------------
(* Requests served while what they, the configurations and the provider contain may be *)
(* malformed (C20): each is answered, nothing malformed lets a request through, nothing *)
(* malformed outlasts its being put right, and no request suffers from another's.       *)
(* Malformed says what each malformed input comes to; this says what it may not do.     *)
EXTENDS Naturals, FiniteSets, TLC

CONSTANTS CRASH,   \* malformed input ends the process
          PASS,    \* what cannot be decoded counts as fine
          WEDGE,   \* a malformed configuration keeps the worker from those after it
          STICK    \* a malformed provider answer is kept

Req == {"r1", "r2"}
Stage == <<"structure", "target", "headers", "token", "keys">>   \* what is looked at, in this order
Texts == {"structure", "target", "headers", "token"}             \* those a request brings along
VARIABLES alive, req, conf, seen, provider, cached, fetch
vars == <<alive, req, conf, seen, provider, cached, fetch>>

Idle == [at |-> 0, bad |-> {}, said |-> "none"]
Init == alive = TRUE /\ req = [r \in Req |-> Idle] /\ conf \in {"good", "malformed"} /\ seen = "none" /\ provider \in {"good", "malformed"} /\ cached = "none" /\ fetch = "idle"

Arrive(r) == alive /\ req[r].at = 0 /\ \E b \in SUBSET Texts : req' = [req EXCEPT ![r] = [at |-> 1, bad |-> b, said |-> "none"]] /\ UNCHANGED <<alive, conf, seen, provider, cached, fetch>>
Say(r, a) == req' = [req EXCEPT ![r] = [@ EXCEPT !.at = 6, !.said = a]]
(* one stage of a request *)
Look(r) ==
  /\ alive /\ req[r].at \in 1..4
  /\ IF Stage[req[r].at] \in req[r].bad /\ ~PASS
     THEN IF CRASH THEN alive' = FALSE /\ UNCHANGED req ELSE Say(r, "refused") /\ UNCHANGED alive
     ELSE /\ UNCHANGED alive
          /\ IF req[r].at = 2 /\ seen # "good" THEN Say(r, "refused")    \* no usable configuration
             ELSE req' = [req EXCEPT ![r].at = @ + 1]
  /\ UNCHANGED <<conf, seen, provider, cached, fetch>>
(* the keys, fetched together by all who need them *)
Ask(r) == alive /\ req[r].at = 5 /\ cached # "good" /\ ~(STICK /\ cached = "malformed") /\ fetch = "idle" /\ fetch' = "asked" /\ UNCHANGED <<alive, req, conf, seen, provider, cached>>
Waiting == { r \in Req : req[r].at = 5 }
Answered ==
  /\ alive /\ fetch = "asked" /\ fetch' = "idle"
  /\ cached' = IF provider = "good" THEN "good" ELSE IF STICK THEN "malformed" ELSE cached
  /\ req' = [r \in Req |-> IF r \in Waiting THEN [req[r] EXCEPT !.at = 6, !.said = IF provider = "good" \/ PASS THEN "ok" ELSE "refused"] ELSE req[r]]
  /\ UNCHANGED <<alive, conf, seen, provider>>
Known(r) == alive /\ req[r].at = 5 /\ fetch = "idle" /\ (cached = "good" \/ (STICK /\ cached = "malformed")) /\ Say(r, IF cached = "good" THEN "ok" ELSE "refused") /\ UNCHANGED <<alive, conf, seen, provider, cached, fetch>>
Done(r) == req[r].at = 6 /\ req' = [req EXCEPT ![r] = Idle] /\ UNCHANGED <<alive, conf, seen, provider, cached, fetch>>
(* configurations are taken in one after the other *)
TakeIn == alive /\ seen # conf /\ ~(WEDGE /\ seen = "malformed") /\ seen' = conf /\ UNCHANGED <<alive, req, conf, provider, cached, fetch>>
Right == \/ conf = "malformed" /\ conf' = "good" /\ UNCHANGED <<alive, req, seen, provider, cached, fetch>>
         \/ provider = "malformed" /\ provider' = "good" /\ UNCHANGED <<alive, req, conf, seen, cached, fetch>>
Next == TakeIn \/ Right \/ Answered \/ \E r \in Req : Arrive(r) \/ Look(r) \/ Ask(r) \/ Known(r) \/ Done(r)
Spec == Init /\ [][Next]_vars /\ WF_vars(TakeIn) /\ WF_vars(Answered) /\ WF_vars(Right) /\ \A r \in Req : WF_vars(Look(r)) /\ WF_vars(Ask(r)) /\ WF_vars(Known(r)) /\ WF_vars(Done(r))

TypeOK == alive \in BOOLEAN /\ seen \in {"none", "good", "malformed"} /\ cached \in {"none", "good", "malformed"} /\ \A r \in Req : req[r].at \in 0..6 /\ req[r].said \in {"none", "refused", "ok"}
KeepsServing == alive
NotFooled == \A r \in Req : req[r].said = "ok" => req[r].bad = {} /\ cached = "good"
(* every request is answered *)
Answers == \A r \in Req : req[r].at = 1 ~> req[r].at = 6
(* what is fine is let through, whatever the other contains, once configuration and provider are right *)
Recovered == \A r \in Req : (req[r].at = 1 /\ req[r].bad = {} /\ seen = "good" /\ provider = "good" /\ fetch = "idle") ~> (req[r].said = "ok")
Settles == <>[](seen = "good" /\ provider = "good")
==================================================================================
