------------------------------- MODULE RefreshImpl -----------------------------
(* How the adapter refreshes (handleRefreshTokens) and logs out (handleLogout),  *)
(* step by step: a refresh loads the session, asks the provider, then - under a  *)
(* lock - looks whether the session is still stored and stores the new tokens.   *)
(* Refines RefreshRace. Without the second look (Guarded = FALSE) it does not.   *)
EXTENDS Naturals, FiniteSets, TLC
CONSTANTS N, Guarded, Locked
R == 1..N
VARIABLES store,      \* the tokens stored for the session: 0 the expired ones, i those of request i, 99 none
          pc, got,    \* per request: where it is; what the provider answered
          out,        \* "pass" or "login", of finished requests
          lpc,        \* of the logout: "idle", "in" (has the lock), "deleted", "answered"
          lock,       \* who holds the lock: 0 nobody, 100 the logout, i
          late        \* requests whose provider answer came after the logout was answered
vars == <<store, pc, got, out, lpc, lock, late>>
None == 99
Init == /\ store = 0 /\ pc = [i \in R |-> "idle"] /\ got = [i \in R |-> FALSE] /\ out = [i \in R |-> "-"]
        /\ lpc = "idle" /\ lock = 0 /\ late = {}

Set(i, p) == pc' = [pc EXCEPT ![i] = p]
Load(i) == /\ pc[i] = "idle"
           /\ IF store = None THEN Set(i, "done") /\ out' = [out EXCEPT ![i] = "login"]
              ELSE IF store # 0 THEN Set(i, "done") /\ out' = [out EXCEPT ![i] = "pass"]
              ELSE Set(i, "asking") /\ UNCHANGED out
           /\ late' = IF lpc = "answered" THEN late \union {i} ELSE late
           /\ UNCHANGED <<store, got, lpc, lock>>
Provider(i) == /\ pc[i] = "asking" /\ \E ok \in BOOLEAN : got' = [got EXCEPT ![i] = ok]
               /\ Set(i, "answered")
               /\ late' = IF lpc = "answered" THEN late \union {i} ELSE late
               /\ UNCHANGED <<store, out, lpc, lock>>
Refused(i) == pc[i] = "answered" /\ ~got[i] /\ Set(i, "done") /\ out' = [out EXCEPT ![i] = "login"] /\ UNCHANGED <<store, got, lpc, lock, late>>
Lock(i) == pc[i] = "answered" /\ got[i] /\ (Locked => lock = 0) /\ lock' = (IF Locked THEN i ELSE lock) /\ Set(i, "locked")
           /\ UNCHANGED <<store, got, out, lpc, late>>
Look(i) == /\ pc[i] = "locked"
           /\ IF Guarded /\ store = None THEN Set(i, "unlock") /\ out' = [out EXCEPT ![i] = "login"]
              ELSE Set(i, "store") /\ UNCHANGED out
           /\ UNCHANGED <<store, got, lpc, lock, late>>
Store(i) == pc[i] = "store" /\ store' = i /\ Set(i, "unlock") /\ out' = [out EXCEPT ![i] = "pass"] /\ UNCHANGED <<got, lpc, lock, late>>
Unlock(i) == pc[i] = "unlock" /\ lock' = (IF Locked THEN 0 ELSE lock) /\ Set(i, "done") /\ UNCHANGED <<store, got, out, lpc, late>>

LLock == lpc = "idle" /\ (Locked => lock = 0) /\ lock' = (IF Locked THEN 100 ELSE lock) /\ lpc' = "in" /\ UNCHANGED <<store, pc, got, out, late>>
LDelete == lpc = "in" /\ store' = None /\ lpc' = "deleted" /\ lock' = (IF Locked THEN 0 ELSE lock) /\ UNCHANGED <<pc, got, out, late>>
LAnswer == lpc = "deleted" /\ lpc' = "answered" /\ UNCHANGED <<store, pc, got, out, lock, late>>

Next == LLock \/ LDelete \/ LAnswer \/ \E i \in R : Load(i) \/ Provider(i) \/ Refused(i) \/ Lock(i) \/ Look(i) \/ Store(i) \/ Unlock(i)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* requests that begin, or get their answer from the provider, after the logout  *)
(* was answered do not pass; and the session is gone for good                    *)
LogoutIsFinal == (lpc = "answered" => store = None) /\ \A i \in late : out[i] # "pass"
Finishes == <>[](\A i \in R : pc[i] = "done" /\ lpc = "answered")
===============================================================================
