-------------------------------- MODULE CookieKeys --------------------------------
(* How adapter instances come by the keys of the login cookies (C16): read the       *)
(* stored secret, else generate keys, store them, and only then use them. Every call *)
(* to the API server may fail before or after taking effect, or find the process     *)
(* dead on return; instances share the secret and know nothing of each other.        *)
(* UseUnstored: keys are used although storing them failed. Replace: a secret found   *)
(* in the way is overwritten.                                                       *)

EXTENDS Naturals, FiniteSets
CONSTANTS Instances, MaxKeys, Tries, UseUnstored, Replace
VARIABLES stored, keys, gen, pc, tries, used, next, faulty, wanted
vars == <<stored, keys, gen, pc, tries, used, next, faulty, wanted>>
Init == /\ stored = 0 /\ keys = [i \in Instances |-> 0] /\ gen = [i \in Instances |-> 0] /\ pc = [i \in Instances |-> "down"]
        /\ tries = [i \in Instances |-> 0] /\ used = {} /\ next = 1 /\ faulty = TRUE /\ wanted = [i \in Instances |-> FALSE]
Set(f, i, v) == [f EXCEPT ![i] = v]
Start(i) == pc[i] = "down" /\ pc' = Set(pc, i, "get") /\ tries' = Set(tries, i, 0) /\ UNCHANGED <<stored, keys, gen, used, next, faulty, wanted>>
(* a login request: uses the keys, or sets them up first *)
Login(i) == /\ pc[i] = "idle"
            /\ IF keys[i] # 0 THEN used' = used \union {keys[i]} /\ UNCHANGED <<pc, tries, wanted>>
               ELSE pc' = Set(pc, i, "get") /\ tries' = Set(tries, i, 0) /\ wanted' = Set(wanted, i, TRUE) /\ UNCHANGED used
            /\ UNCHANGED <<stored, keys, gen, next, faulty>>
Generate(i) == next <= MaxKeys /\ gen' = Set(gen, i, next) /\ next' = next + 1 /\ pc' = Set(pc, i, "create") /\ tries' = Set(tries, i, 0)
GetOk(i) == /\ pc[i] = "get"
            /\ IF stored # 0 THEN keys' = Set(keys, i, stored) /\ pc' = Set(pc, i, "idle") /\ wanted' = Set(wanted, i, FALSE) /\ UNCHANGED <<gen, next, tries>>
               ELSE Generate(i) /\ UNCHANGED <<keys, wanted>>
            /\ UNCHANGED <<stored, used, faulty>>
GetFail(i) == /\ pc[i] = "get" /\ faulty
              /\ IF tries[i] + 1 < Tries THEN tries' = Set(tries, i, tries[i] + 1) /\ UNCHANGED <<gen, next, pc>> ELSE Generate(i)
              /\ UNCHANGED <<stored, keys, used, faulty, wanted>>
CreateOk(i) == /\ pc[i] = "create" /\ (stored = 0 \/ Replace)
               /\ stored' = gen[i] /\ keys' = Set(keys, i, gen[i]) /\ pc' = Set(pc, i, "idle") /\ wanted' = Set(wanted, i, FALSE)
               /\ UNCHANGED <<gen, tries, used, next, faulty>>
Giveup(i) == pc' = Set(pc, i, "idle") /\ keys' = (IF UseUnstored THEN Set(keys, i, gen[i]) ELSE keys)
Again(i) == IF tries[i] + 1 < Tries THEN tries' = Set(tries, i, tries[i] + 1) /\ UNCHANGED <<pc, keys>> ELSE Giveup(i) /\ UNCHANGED tries
CreateConflict(i) == pc[i] = "create" /\ stored # 0 /\ ~Replace /\ Again(i) /\ UNCHANGED <<stored, gen, used, next, faulty, wanted>>
CreateFail(i) == pc[i] = "create" /\ faulty /\ Again(i) /\ UNCHANGED <<stored, gen, used, next, faulty, wanted>>
CreateLost(i) == pc[i] = "create" /\ faulty /\ stored = 0 /\ stored' = gen[i] /\ Again(i) /\ UNCHANGED <<gen, used, next, faulty, wanted>>
Crash(i) == /\ pc[i] # "down" /\ faulty /\ pc' = Set(pc, i, "down") /\ keys' = Set(keys, i, 0) /\ gen' = Set(gen, i, 0) /\ wanted' = Set(wanted, i, FALSE)
            /\ UNCHANGED <<stored, tries, used, next, faulty>>
(* from some time on everything works *)
Heal == faulty /\ faulty' = FALSE /\ UNCHANGED <<stored, keys, gen, pc, tries, used, next, wanted>>
Call(i) == GetOk(i) \/ GetFail(i) \/ CreateOk(i) \/ CreateConflict(i) \/ CreateFail(i) \/ CreateLost(i)
Next == Heal \/ \E i \in Instances : Start(i) \/ Login(i) \/ Crash(i) \/ Call(i)
Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(Heal) /\ \A i \in Instances : WF_vars(GetOk(i) \/ CreateOk(i) \/ CreateConflict(i)) /\ WF_vars(Start(i)) /\ WF_vars(Login(i))
Safe == used \subseteq {stored} \ {0}
Kept == [][stored # 0 => stored' = stored]_vars
(* once everything works every instance comes by the keys, unless the bound on keys stops it *)
Resumes == \A i \in Instances : []((~faulty /\ next <= MaxKeys - 2 * Cardinality(Instances)) => <>(keys[i] # 0))
===================================================================================
