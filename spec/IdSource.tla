-------------------------------- MODULE IdSource --------------------------------
(* Handing out identifiers (C14): concurrent requests of several runs of the      *)
(* adapter draw from a source. Atomic: a draw reads and advances the source in    *)
(* one step. Fresh: every run begins at a point of its own. With both, ids are    *)
(* never repeated; TLC refutes the other variants.                                *)
EXTENDS Naturals, FiniteSets, Sequences
CONSTANTS Threads, Runs, Draws, Atomic, Fresh
VARIABLES run, src, at, got, issued, twice
vars == <<run, src, at, got, issued, twice>>
Begin(r) == IF Fresh THEN r * 100 ELSE 0
Init == run = 1 /\ src = Begin(1) /\ at = [t \in Threads |-> "idle"] /\ got = [t \in Threads |-> 0] /\ issued = {} /\ twice = FALSE
Issue(id) == issued' = issued \union {id} /\ twice' = (twice \/ id \in issued)
Draw(t) == /\ at[t] = "idle" /\ Cardinality(issued) < Draws
           /\ IF Atomic
              THEN Issue(src) /\ src' = src + 1 /\ UNCHANGED <<at, got>>
              ELSE got' = [got EXCEPT ![t] = src] /\ at' = [at EXCEPT ![t] = "drawing"] /\ UNCHANGED <<src, issued, twice>>
           /\ UNCHANGED run
Finish(t) == /\ at[t] = "drawing" /\ Issue(got[t]) /\ src' = got[t] + 1
             /\ at' = [at EXCEPT ![t] = "idle"] /\ UNCHANGED <<run, got>>
Restart == /\ run < Runs /\ run' = run + 1 /\ src' = Begin(run + 1) /\ at' = [t \in Threads |-> "idle"] /\ UNCHANGED <<got, issued, twice>>
Next == Restart \/ \E t \in Threads : Draw(t) \/ Finish(t)
Spec == Init /\ [][Next]_vars
NeverRepeated == ~twice
===============================================================================
