----------------------------- MODULE Trace_CookieKeys -----------------------------
(* Recorded histories of a secret, the requests for it, and the logins begun and       *)
(* finished meanwhile. Each line is one cluster. The events of the secret are in the   *)
(* order they took effect.                                                             *)
EXTENDS Naturals, FiniteSets, Sequences, TLC, Json, IOUtils
VARIABLES h, i, stored, usable, mended, open, why
vars == <<h, i, stored, usable, mended, open, why>>
Histories == ndJsonDeserialize(IOEnv.TRACE)
Ev == Histories[h].events[i]
Init == h \in 1..Len(Histories) /\ i = 1 /\ stored = "" /\ usable = "yes" /\ mended = FALSE /\ open = << >> /\ why = ""
Put(f, k, v) == [x \in DOMAIN f \union {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
(* a request under way while a call failed, or found a secret in its way, may be refused *)
Hurt == [r \in DOMAIN open |-> [open[r] EXCEPT !.hurt = TRUE]]
Call ==
  /\ open' = (IF Ev.told /\ Ev.effect # "conflict" THEN open ELSE Hurt)
  /\ CASE Ev.effect = "created" ->
            /\ stored' = Ev.key /\ usable' = "yes" /\ mended' = FALSE
            /\ why' = IF stored # "" THEN "the stored keys were replaced"
                      ELSE IF Ev.hash # Histories[h].hash \/ Ev.block # Histories[h].block THEN "keys of other sizes than configured"
                      ELSE IF Ev.again THEN "keys that are not newly made" ELSE why
       [] Ev.effect \in {"replaced", "deleted", "other"} -> why' = "the stored secret was changed" /\ UNCHANGED <<stored, usable, mended>>
       [] OTHER -> UNCHANGED <<stored, usable, mended, why>>
Answer ==
  /\ open' = Drop(open, Ev.r)
  /\ mended' = (IF Ev.res = "reject" THEN FALSE ELSE mended)
  /\ UNCHANGED <<stored, usable>>
  /\ why' = CASE Ev.res = "login" /\ stored = "" -> "a cookie although no keys are stored"
              [] Ev.res = "login" /\ usable = "no" -> "a cookie although the stored keys cannot be used"
              [] Ev.res = "login" /\ usable = "yes" /\ ~Ev.good -> "a cookie not protected by the stored keys"
              [] Ev.res = "finished" -> why
              [] Ev.res = "reject" /\ usable = "yes" /\ ~mended /\ ~open[Ev.r].hurt -> "refused although the keys can be read or stored"
              [] Ev.res = "pass" -> "passed"
              [] OTHER -> why
Step ==
  /\ why = "" /\ i <= Len(Histories[h].events) /\ i' = i + 1 /\ h' = h
  /\ CASE Ev.op = "call"   -> Call
       [] Ev.op = "ask"    -> open' = Put(open, Ev.r, [hurt |-> FALSE]) /\ UNCHANGED <<stored, usable, mended, why>>
       [] Ev.op = "answer" -> Answer
       [] Ev.op = "admin"  -> stored' = Ev.key /\ mended' = (usable = "no") /\ usable' = Ev.usable /\ UNCHANGED <<open, why>>
Spec == Init /\ [][Step]_vars
Explained == IF why = "" THEN TRUE
             ELSE PrintT("TRACE-REJECTED " \o ToJson([why |-> why, steps |-> Histories[h].steps, events |-> SubSeq(Histories[h].events, IF i > 16 THEN i - 16 ELSE 1, i - 1)])) /\ FALSE
===================================================================================
