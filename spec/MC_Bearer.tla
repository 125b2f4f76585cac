------------------------------- MODULE MC_Bearer ------------------------------
(* The adapter's own reading of the header: cut it at the first two spaces.     *)
EXTENDS Bearer, TLC, SequencesExt
CONSTANT MaxLen
VARIABLES h, p, pc, parts, verdict
vars == <<h, p, pc, parts, verdict>>
IsSP(x) == x = "SP"
(* strings.SplitN(header, " ", 3): parts are sequences of atoms *)
SplitN(s) ==
  LET sp == { i \in 1..Len(s) : IsSP(s[i]) }
      first == CHOOSE i \in sp : \A j \in sp : i <= j
      second == CHOOSE i \in sp \ {first} : \A j \in sp \ {first} : i <= j
  IN  IF sp = {} THEN << s >>
      ELSE IF Cardinality(sp) = 1 THEN << SubSeq(s, 1, first - 1), SubSeq(s, first + 1, Len(s)) >>
      ELSE << SubSeq(s, 1, first - 1), SubSeq(s, first + 1, second - 1), SubSeq(s, second + 1, Len(s)) >>
Init == h \in Headers(MaxLen) /\ p \in DOMAIN Policies /\ pc = "split" /\ parts = << >> /\ verdict = "none"
Token(x) == IF Len(x) = 1 THEN x[1] ELSE "g"
Split == pc = "split" /\ parts' = SplitN(h) /\ UNCHANGED <<h, p>>
         /\ IF Len(SplitN(h)) \in {2, 3} /\ SplitN(h)[1] \in { <<"Bearer">>, <<"bearer">> }
            THEN pc' = "access" /\ UNCHANGED verdict ELSE pc' = "done" /\ verdict' = "reject"
Access == pc = "access" /\ UNCHANGED <<h, p, parts>>
          /\ IF parts[2] # <<>> /\ ValidAt(p, "access_token", Token(parts[2]))
             THEN IF Len(parts) = 3 /\ parts[3] # <<>> THEN pc' = "id" /\ UNCHANGED verdict ELSE pc' = "done" /\ verdict' = "accept"
             ELSE pc' = "done" /\ verdict' = "reject"
Id == pc = "id" /\ UNCHANGED <<h, p, parts>> /\ pc' = "done"
      /\ verdict' = IF ValidAt(p, "id_token", Token(parts[3])) THEN "accept" ELSE "reject"
Next == Split \/ Access \/ Id
Spec == Init /\ [][Next]_vars
Agrees == verdict # "none" => verdict \in Allowed(p, h)
===============================================================================
