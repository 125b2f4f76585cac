------------------------------- MODULE PolicyStore -------------------------------
(* How the policy store replaces a policy, step by step (C15, C02): a request is    *)
(* decided by the most specific listed endpoint. Atomic: all endpoints at once.     *)
(* Otherwise endpoint by endpoint, in the order the policy lists them, and then     *)
(* those no longer listed are released. The refinement to the atomic step fails     *)
(* for the latter: a request may be decided by a mixture. Ordered: new endpoints    *)
(* from the most specific one, releases from the least specific one: then at least  *)
(* every single request is decided by one of both versions.                         *)
EXTENDS Naturals, FiniteSets, Sequences
CONSTANTS Atomic, Ordered
(* the endpoints that cover one request, from the most to the least specific one *)
Levels == 1..3
Nobody == 0
(* a version says for each level whether it lists it; what it says there is told by *)
(* the version's number and the level                                               *)
Versions == [Levels -> BOOLEAN]
Entry(n, v, l) == IF v[l] THEN <<n, l>> ELSE <<Nobody, 0>>
VARIABLES store, n, old, new, todo, seen
vars == <<store, n, old, new, todo, seen>>
Decide(s) == IF \E l \in Levels : s[l][1] # Nobody
             THEN s[CHOOSE l \in Levels : s[l][1] # Nobody /\ \A m \in Levels : m < l => s[m][1] = Nobody]
             ELSE <<Nobody, 0>>
Of(k, v) == [l \in Levels |-> Entry(k, v, l)]
Empty == [l \in Levels |-> FALSE]
Init == store = Of(0, Empty) /\ n = 0 /\ old = Empty /\ new = Empty /\ todo = <<>> /\ seen = <<Nobody, 0>>
Orders(S) == { f \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => f[i] # f[j] }
Add(v) == { l \in Levels : v[l] }
Release(v, w) == { l \in Levels : v[l] /\ ~w[l] }
Plans(v, w) ==
  { [i \in 1..(Len(a) + Len(r)) |-> IF i <= Len(a) THEN <<"add", a[i]>> ELSE <<"release", r[i - Len(a)]>>] :
    <<a, r>> \in { x \in Orders(Add(w)) \X Orders(Release(v, w)) :
                   ~Ordered \/ /\ \A i, j \in DOMAIN x[1] : i < j => x[1][i] < x[1][j]
                               /\ \A i, j \in DOMAIN x[2] : i < j => x[2][i] > x[2][j] } }
Begin == /\ todo = <<>> /\ n < 2
         /\ \E w \in Versions :
              /\ new' = w /\ old' = new /\ n' = n + 1
              /\ IF Atomic THEN store' = Of(n + 1, w) /\ todo' = <<>>
                 ELSE store' = store /\ todo' \in Plans(new, w)
         /\ UNCHANGED seen
Step == /\ todo # <<>>
        /\ LET s == Head(todo)
           IN  store' = [store EXCEPT ![s[2]] = IF s[1] = "add" THEN <<n, s[2]>> ELSE <<Nobody, 0>>]
        /\ todo' = Tail(todo) /\ UNCHANGED <<n, old, new, seen>>
Request == seen' = Decide(store) /\ UNCHANGED <<store, n, old, new, todo>>
Next == Begin \/ Step \/ Request
Spec == Init /\ [][Next]_vars
(* what the version before, and the version now, decide *)
Before == Decide(Of(n - 1, old))
Now == Decide(Of(n, new))
OneOfBoth == [][seen' # seen => seen' = Now \/ (n > 0 /\ seen' = Before)]_vars
NeverOpen == Decide(store)[1] = Nobody => n = 0 \/ Now[1] = Nobody \/ Before[1] = Nobody
(* two requests to different endpoints never see the new version first and then the old one *)
NoMixture == todo = <<>> \/ store = Of(n - 1, old) \/ store = Of(n, new)
===============================================================================
