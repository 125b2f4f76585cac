------------------------------- MODULE Convergence -------------------------------
(* One kind of resource on its way from the cluster to the store (C18): the          *)
(* informer lists and watches, notifications put names into a queue, a worker takes   *)
(* them out and applies what the informer's cache holds. Watches break, lists fail,   *)
(* old changes are compacted, reads fail. The broken variants are refuted.            *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Obj, V, MaxChanges, MaxFaults,
          ListOnlyAdds,        \* broken: a list does not notice what is gone
          FailedReadIsDelete,  \* broken: a failed read is taken for a deletion
          QueueHoldsItems      \* broken: the queue holds what was seen, in no particular order, instead of the name
VARIABLES live, log, base, conn, pos, cache, queue, applied, faults
vars == <<live, log, base, conn, pos, cache, queue, applied, faults>>
Zero == [o \in Obj |-> 0]
Init == live = Zero /\ log = <<>> /\ base = 0 /\ conn = "list" /\ pos = 0 /\ cache = Zero /\ queue = {} /\ applied = Zero /\ faults = 0

Change(o, v) == /\ Len(log) < MaxChanges /\ live[o] # v
                /\ live' = [live EXCEPT ![o] = v] /\ log' = Append(log, [o |-> o, v |-> v])
                /\ UNCHANGED <<base, conn, pos, cache, queue, applied, faults>>
Deliver == /\ conn = "watch" /\ pos < Len(log)
           /\ LET e == log[pos + 1] IN cache' = [cache EXCEPT ![e.o] = e.v] /\ queue' = queue \union { <<e.o, IF QueueHoldsItems THEN e.v ELSE 0>> }
           /\ pos' = pos + 1 /\ UNCHANGED <<live, log, base, conn, applied, faults>>
Fault == faults < MaxFaults /\ faults' = faults + 1
Drop == Fault /\ conn = "watch" /\ conn' = "off" /\ UNCHANGED <<live, log, base, pos, cache, queue, applied>>
Compact == Fault /\ base < Len(log) /\ base' = Len(log) /\ UNCHANGED <<live, log, conn, pos, cache, queue, applied>>
Rewatch == conn = "off" /\ pos >= base /\ conn' = "watch" /\ UNCHANGED <<live, log, base, pos, cache, queue, applied, faults>>
Relist == conn = "off" /\ conn' = "list" /\ UNCHANGED <<live, log, base, pos, cache, queue, applied, faults>>
ListFails == Fault /\ conn = "list" /\ UNCHANGED <<live, log, base, conn, pos, cache, queue, applied>>
List == /\ conn = "list" /\ conn' = "off" /\ pos' = Len(log)
        /\ cache' = [o \in Obj |-> IF ListOnlyAdds /\ live[o] = 0 THEN cache[o] ELSE live[o]]
        /\ queue' = queue \union { <<o, IF QueueHoldsItems THEN live[o] ELSE 0>> : o \in { o \in Obj : cache'[o] # cache[o] } }
        /\ UNCHANGED <<live, log, base, applied, faults>>
Process == \E q \in queue :
             /\ queue' = IF QueueHoldsItems THEN { x \in queue : x[1] # q[1] } ELSE queue \ {q}
             /\ applied' = [applied EXCEPT ![q[1]] = IF QueueHoldsItems THEN q[2] ELSE cache[q[1]]]
             /\ UNCHANGED <<live, log, base, conn, pos, cache, faults>>
(* reading from the cache fails: the name stays queued *)
ReadFails == Fault /\ \E q \in queue :
               /\ IF FailedReadIsDelete THEN applied' = [applied EXCEPT ![q[1]] = 0] ELSE UNCHANGED applied
               /\ UNCHANGED <<live, log, base, conn, pos, cache, queue>>
System == Deliver \/ Rewatch \/ Relist \/ List \/ Process
Next == (\E o \in Obj, v \in 0..V : Change(o, v)) \/ System \/ Drop \/ Compact \/ ListFails \/ ReadFails
Fair == WF_vars(Deliver) /\ SF_vars(Rewatch) /\ WF_vars(List) /\ WF_vars(Process) /\ WF_vars(conn = "off" /\ pos < base /\ Relist)
Spec == Init /\ [][Next]_vars /\ Fair

(* once the changes are delivered and processed, the store is the cluster *)
Converged == (conn = "watch" /\ pos = Len(log) /\ queue = {}) => applied = live
(* nothing changes what is enforced but what was heard of the cluster *)
KeepsLastKnown == [][applied' # applied => \A o \in Obj : applied'[o] \in {applied[o], cache[o]}]_vars
Had(o) == {0} \union { log[i].v : i \in { i \in 1..Len(log) : log[i].o = o } }
NothingInvented == \A o \in Obj : applied[o] \in Had(o)
NeverGoneWhileThere == [][\A o \in Obj : (applied'[o] = 0 /\ applied[o] # 0) => \E i \in 1..Len(log) : log[i] = [o |-> o, v |-> 0]]_vars
(* changes and faults are finitely many: then it converges for good *)
EventuallyConverges == <>[](applied = live)
==================================================================================
