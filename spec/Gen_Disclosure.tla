------------------------------ MODULE Gen_Disclosure ------------------------------
(* The cases replayed into the running adapter, and whom each class is for (C23) *)
EXTENDS TLC, Json, IOUtils, SequencesExt, FiniteSets
D == INSTANCE Disclosure WITH Clients <- {"A"}, Defects <- {}, pend <- 0, sess <- 0, key <- 0, did <- 0
Cases == UNION { { [kind |-> k, fault |-> f, meant |-> SetToSeq(D!Meant(k, f))] : f \in D!Faults(k) } : k \in D!Kinds }
ASSUME \A c \in Cases : \A d \in { c.meant[i] : i \in DOMAIN c.meant } : d[2] \in D!May(d[1])
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
ASSUME ndJsonSerialize(IOEnv.OUT2, SetToSeq({ [class |-> c, may |-> SetToSeq(D!May(c))] : c \in D!Classes }))
===================================================================================
