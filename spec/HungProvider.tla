------------------------------- MODULE HungProvider -------------------------------
(* Requests while identity providers do not answer (C19). Time passes only while all    *)
(* that could go on waits (a unit of Time is the limit of one call). Provider "h" may    *)
(* hang at any of its endpoints, provider "g" never does. Requests learn the discovery   *)
(* document and the keys of their provider as they go. Changes are the creation or       *)
(* update of a configuration, processed in order by one worker.                          *)
(*   Bounded = FALSE: calls have no time limit   OneLock: calls are made under one lock   *)
(*   Waits: the worker waits for the provider of the configuration it adds               *)
(*   Trusts: an answer that does not come counts as consent                              *)
EXTENDS Naturals, Sequences, FiniteSets, ProviderNeeds
CONSTANTS Kinds, N, Limit, MaxAge, Bounded, OneLock, Waits, Trusts
Provs == {"h", "g"}
VARIABLES hung,      \* endpoints of "h" that do not answer
          doc, keys, \* provider -> what the adapter knows of it
          req,       \* request -> [prov, kind, todo, wait, age, out, faced]
          lock,      \* request holding the lock, 0 for none
          queue      \* changes to be processed: [prov, wait, age]
vars == <<hung, doc, keys, req, lock, queue>>
Idle == [prov |-> "g", kind |-> "api", todo |-> <<>>, wait |-> 0, age |-> 0, out |-> "idle", faced |-> FALSE]
Init == /\ hung = {} /\ doc = [p \in Provs |-> FALSE] /\ keys = [p \in Provs |-> FALSE]
        /\ req = [i \in 1..N |-> Idle] /\ lock = 0 /\ queue = <<>>
Running(i) == req[i].out = "run"
Hangs(i) == req[i].prov = "h" /\ Head(req[i].todo) \in hung
Hang == \E e \in Endpoints : e \notin hung /\ hung' = hung \union {e} /\ UNCHANGED <<doc, keys, req, lock, queue>>
Relent == hung # {} /\ hung' = {} /\ UNCHANGED <<doc, keys, req, lock, queue>>
Start(i) == /\ req[i].out # "run"
            /\ \E p \in Provs, k \in Kinds :
                 req' = [req EXCEPT ![i] = [prov |-> p, kind |-> k, todo |-> Needs(k, doc[p], keys[p]), wait |-> 0, age |-> 0, out |-> "run", faced |-> FALSE]]
            /\ UNCHANGED <<hung, doc, keys, lock, queue>>
MayCall(i) == Running(i) /\ req[i].wait = 0 /\ req[i].todo # <<>> /\ (OneLock => lock = 0)
Call(i) ==
  /\ MayCall(i)
  /\ LET e == Head(req[i].todo) IN
     IF Hangs(i)
     THEN /\ req' = [req EXCEPT ![i].wait = Limit, ![i].faced = TRUE] /\ lock' = (IF OneLock THEN i ELSE 0) /\ UNCHANGED <<doc, keys>>
     ELSE /\ req' = [req EXCEPT ![i].todo = Tail(@)] /\ UNCHANGED lock
          /\ doc' = [doc EXCEPT ![req[i].prov] = @ \/ e = "discovery"]
          /\ keys' = [keys EXCEPT ![req[i].prov] = @ \/ e = "jwks"]
  /\ UNCHANGED <<hung, queue>>
Finish(i) == /\ Running(i) /\ req[i].wait = 0 /\ req[i].todo = <<>>
             /\ req' = [req EXCEPT ![i].out = Normal(req[i].kind)] /\ UNCHANGED <<hung, doc, keys, lock, queue>>
Change == /\ Len(queue) < N
          /\ \E p \in Provs : queue' = Append(queue, [prov |-> p, wait |-> 0, age |-> 0])
          /\ UNCHANGED <<hung, doc, keys, req, lock>>
(* the worker: what was known of a provider is forgotten with its configuration's previous version *)
WorkerReady == queue # <<>> /\ Head(queue).wait = 0
Work == /\ WorkerReady
        /\ LET c == Head(queue) IN
           IF Waits /\ c.prov = "h" /\ hung # {} /\ c.age = 0
           THEN queue' = <<[c EXCEPT !.wait = Limit, !.age = 1]>> \o Tail(queue) /\ UNCHANGED <<doc, keys>>
           ELSE queue' = Tail(queue) /\ doc' = [doc EXCEPT ![c.prov] = FALSE] /\ keys' = [keys EXCEPT ![c.prov] = FALSE]
        /\ UNCHANGED <<hung, req, lock>>
Urgent == (\E i \in 1..N : (MayCall(i) \/ (Running(i) /\ req[i].wait = 0 /\ req[i].todo = <<>>)))
          \/ WorkerReady
(* time: who waited long enough gives up and is rejected, or fails over to a new login *)
Later(i) == LET r == req[i] IN
  IF r.out # "run" THEN r
  ELSE IF r.wait = 1 /\ Bounded
       THEN [r EXCEPT !.wait = 0, !.age = @ + 1, !.todo = IF Trusts THEN Tail(@) ELSE <<>>, !.out = IF Trusts THEN "run" ELSE "reject"]
       ELSE [r EXCEPT !.wait = IF @ > 1 THEN @ - 1 ELSE @, !.age = @ + 1]
Tick == /\ ~Urgent
        /\ (\E i \in 1..N : Running(i)) \/ queue # <<>>
        /\ req' = [i \in 1..N |-> Later(i)]
        /\ lock' = (IF lock # 0 /\ Later(lock).wait = 0 THEN 0 ELSE lock)
        /\ queue' = [n \in 1..Len(queue) |-> [queue[n] EXCEPT !.wait = IF @ > 0 THEN @ - 1 ELSE @, !.age = @ + 1]]
        /\ UNCHANGED <<hung, doc, keys>>
Next == Hang \/ Relent \/ Change \/ Work \/ Tick \/ \E i \in 1..N : Start(i) \/ Call(i) \/ Finish(i)
Spec == Init /\ [][Next]_vars
Bound == \A i \in 1..N : req[i].age <= MaxAge + 1
(* ---- the property ---- *)
Answered == \A i \in 1..N : Running(i) => req[i].age <= MaxAge
OthersUnaffected == /\ \A i \in 1..N : req[i].prov = "g" => req[i].age = 0
                    /\ \A n \in 1..Len(queue) : queue[n].prov = "g" => queue[n].age = 0
NeverThrough == \A i \in 1..N : req[i].faced => req[i].out \in {"run", "reject", "idle"}
====================================================================================
