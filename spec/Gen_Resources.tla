------------------------------- MODULE Gen_Resources ------------------------------
(* The kinds of work replayed many times over into the running adapter (C24) *)
EXTENDS TLC, Json, IOUtils, SequencesExt, FiniteSets, Naturals, Sequences
R == INSTANCE Resources WITH MaxOps <- 1, Budget <- 1, Pool <- 1, Defects <- {}, ops <- 0, busy <- 0, idle <- 0, tasks <- 0, config <- 0,
     entries <- 0, logins <- 0, sessions <- 0, junk <- 0, left <- 0, next <- 0
Str(f) == IF Len(f) = 1 THEN f[1] ELSE IF Len(f) = 2 THEN f[1] \o " " \o f[2] ELSE f[1] \o " " \o f[2] \o " " \o f[3]
Cases == UNION { { [kind |-> k, fault |-> Str(f), calls |-> [i \in DOMAIN R!Calls(k, f) |-> R!Calls(k, f)[i][1]]] : f \in R!Faults(k) } : k \in R!Kinds }
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
===================================================================================
