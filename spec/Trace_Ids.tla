-------------------------------- MODULE Trace_Ids --------------------------------
(* The session ids and login states the adapter really handed out (C14). A line of *)
(* the trace is a batch: the ids, as sequences of character codes; whether they    *)
(* were handed out one after the other; and, if the attacker of the harness could  *)
(* compute one of them, how. Every id must be new; over all of them, each position *)
(* must vary evenly over the whole alphabet, independently of the other positions  *)
(* and of the ids before. Bounds are more than six standard deviations wide.       *)
EXTENDS Naturals, FiniteSets, Sequences, TLC, Json, IOUtils
Batches == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, issued, why
vars == <<i, issued, why>>
Init == i = 1 /\ issued = {} /\ why = ""
New(b) == { b.ids[k] : k \in 1..Len(b.ids) }
Judge(b) == CASE b.guessed # "" -> "an attacker can compute the ids: " \o b.guessed
              [] Cardinality(New(b)) # Len(b.ids) -> "an id was handed out twice"
              [] New(b) \cap issued # {} -> "an id was handed out again"
              [] OTHER -> ""
Step == /\ why = "" /\ i <= Len(Batches) /\ i' = i + 1
        /\ issued' = issued \union New(Batches[i]) /\ why' = Judge(Batches[i])
Spec == Init /\ [][Step]_vars

(* the statistics of one kind of ids of a batch *)
Count(n, P(_)) == Cardinality({ k \in 1..n : P(k) })
Alphabet(b) == UNION { { b.ids[k][p] : p \in DOMAIN b.ids[k] } : k \in 1..Len(b.ids) }
(* n trials with probability 1/a: far from what chance gives *)
Far(c, n, a) == c * a * 5 < n * 2 - 30 * a \/ c * a > 2 * n + 20 * a
Lengths(b) == { Len(b.ids[k]) : k \in 1..Len(b.ids) }
Bits == [session |-> 64, state |-> 40]
Log2(n) == CASE n >= 64 -> 6 [] n >= 32 -> 5 [] n >= 16 -> 4 [] n >= 8 -> 3 [] n >= 4 -> 2 [] n >= 2 -> 1 [] OTHER -> 0
Statistics(b) ==
  LET n == Len(b.ids)
      ids == b.ids
      al == Alphabet(b)
      a == Cardinality(al)
      len == CHOOSE l \in Lengths(b) : \A m \in Lengths(b) : l <= m
      pos == 1..len
      Short == len * Log2(a) < Bits[b.kind]
      Uneven == { p \in pos : \E c \in al : Far(Count(n, LAMBDA k : ids[k][p] = c), n, a) }
      Repeats == { pq \in pos \X pos : pq[1] < pq[2] /\ Far(Count(n, LAMBDA k : ids[k][pq[1]] = ids[k][pq[2]]), n, a) }
      Follows == { pq \in pos \X pos : Far(Count(n - 1, LAMBDA k : ids[k][pq[1]] = ids[k + 1][pq[2]]), n - 1, a) }
      (* the distance between a position's characters in consecutive ids *)
      Steps == { p \in pos : \E d \in 1..6 : Far(Count(n - 1, LAMBDA k : ids[k + 1][p] = ids[k][p] + d), n - 1, a)
                                             /\ Count(n - 1, LAMBDA k : ids[k + 1][p] = ids[k][p] + d) * a > n + 20 * a }
      (* the sessions' ids and the states of their logins *)
      Derived == IF b.kind = "session" /\ Len(b.states) = n
                 THEN { pq \in pos \X (1..Len(b.states[1])) : Far(Count(n, LAMBDA k : pq[2] \in DOMAIN b.states[k] /\ ids[k][pq[1]] = b.states[k][pq[2]]), n, a) } ELSE {}
  IN  CASE Short -> "ids of kind " \o b.kind \o " are too short to be unguessable"
        [] Uneven # {} -> b.kind \o ": positions that do not vary evenly over the alphabet: " \o ToString(Uneven)
        [] Repeats # {} -> b.kind \o ": positions that depend on each other: " \o ToString(Repeats)
        [] b.sequential /\ Follows # {} -> b.kind \o ": ids depend on the id before: " \o ToString(Follows)
        [] b.sequential /\ Steps # {} -> b.kind \o ": ids count: " \o ToString(Steps)
        [] Derived # {} -> "session ids depend on the login's state: " \o ToString(Derived)
        [] OTHER -> ""
Verdict(b) == IF b.statistics THEN Statistics(b) ELSE ""

Explained == LET w == IF why # "" THEN why ELSE IF i <= Len(Batches) THEN Verdict(Batches[i]) ELSE ""
             IN  IF w = "" THEN TRUE ELSE PrintT("TRACE-REJECTED " \o w) /\ FALSE
===============================================================================
