-------------------------------- MODULE MC_Linear --------------------------------
(* The object itself beside the judge. Sound: the judge accepts whatever it does.   *)
(* Stale: a request may also be answered by the version before the one in effect    *)
(* when it began; the judge must notice.                                            *)
EXTENDS Linear, FiniteSets
CONSTANTS Contents, Requests, MaxVersions, Stale
VARIABLES cur, at, got, n, told
vars == <<w, lo, open, why, cur, at, got, n, told>>
Init == /\ JInit /\ cur = 0 /\ at = [r \in Requests |-> "idle"] /\ got = [r \in Requests |-> "x"] /\ n = 0 /\ told = TRUE
Write(c) == Len(w) < MaxVersions /\ JWrite(c) /\ UNCHANGED <<cur, at, got, n, told>>
Effect == cur < Len(w) /\ cur' = cur + 1 /\ told' = FALSE /\ UNCHANGED <<judge, at, got, n>>
Confirm == ~told /\ JConfirm(cur) /\ told' = TRUE /\ UNCHANGED <<cur, at, got, n>>
Begin(r) == cur > 0 /\ n < 4 /\ at[r] = "idle" /\ at' = [at EXCEPT ![r] = "asked"] /\ n' = n + 1 /\ JBegin(r)
            /\ got' = [got EXCEPT ![r] = IF Stale /\ cur > 1 THEN w[cur - 1] ELSE "x"] /\ UNCHANGED <<cur, told>>
Answer(r) == at[r] = "asked" /\ at' = [at EXCEPT ![r] = "answered"] /\ got' = [got EXCEPT ![r] = IF Stale /\ got[r] # "x" THEN got[r] ELSE w[cur]]
             /\ UNCHANGED <<judge, cur, n, told>>
End(r) == at[r] = "answered" /\ at' = [at EXCEPT ![r] = "idle"] /\ JEnd(r, LAMBDA c : c = got[r]) /\ UNCHANGED <<cur, got, n, told>>
Next == Effect \/ Confirm \/ (\E c \in Contents : Write(c)) \/ \E r \in Requests : Begin(r) \/ Answer(r) \/ End(r)
Spec == Init /\ [][Next]_vars
Accepted == why = ""
===================================================================================
