---------------------------------- MODULE Linear ----------------------------------
(* Judging histories of one object that changes while requests are answered (C15). *)
(* Version k of the object has content w[k]; changes take effect in their order,    *)
(* each some time after it was made; a request is answered by one version that was  *)
(* in effect at some moment between its beginning and its end. The judge knows lo,  *)
(* the least version that can be in effect now, and for every request under way the *)
(* least it may see. Choosing the least version that explains an answer is optimal: *)
(* MC_Linear shows that exactly the behaviours of the object are accepted.          *)
EXTENDS Naturals, Sequences, TLC
VARIABLES w, lo, open, why
judge == <<w, lo, open, why>>
JInit == w = << >> /\ lo = 1 /\ open = << >> /\ why = ""
Put(f, k, v) == [x \in DOMAIN f \union {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
JWrite(c) == w' = Append(w, c) /\ UNCHANGED <<lo, open, why>>
(* version k is known to be in effect *)
JConfirm(k) == lo' = (IF k > lo THEN k ELSE lo) /\ UNCHANGED <<w, open, why>>
JBegin(r) == open' = Put(open, r, lo) /\ UNCHANGED <<w, lo, why>>
JEnd(r, Compat(_)) ==
  LET C == { k \in open[r]..Len(w) : Compat(w[k]) }
  IN  /\ open' = Drop(open, r) /\ w' = w
      /\ IF C = {} THEN why' = "no version in effect during the request explains its answer" /\ lo' = lo
         ELSE LET k == CHOOSE k \in C : \A m \in C : k <= m
              IN  lo' = (IF k > lo THEN k ELSE lo) /\ why' = why
===================================================================================
