---------------------------- MODULE MC_Resolution -----------------------------
(* Exhaustive check of the resolution rules over small sets of entries.       *)
EXTENDS Resolution, TLC, FiniteSetsExt
CONSTANTS Segs, MaxDepth, MaxEntries, EMethods, RMethods

PathsUpTo(d) == UNION {[1..n -> Segs] : n \in 0..d}
Entries == [kind : {"exact", "prefix"}, path : PathsUpTo(MaxDepth), method : EMethods]
Requests == [path : PathsUpTo(MaxDepth + 1), method : RMethods]

VARIABLES live, req
vars == <<live, req>>

Init == live = {} /\ req \in Requests
Add == \E e \in Entries \ live : Cardinality(live) < MaxEntries /\ live' = live \union {e} /\ UNCHANGED req
Remove == \E e \in live : live' = live \ {e} /\ UNCHANGED req
Next == Add \/ Remove
Spec == Init /\ [][Next]_vars

(* the code's lookup finds exactly the most specific entries *)
WalkIsDecide == Walk(live, req) = Deciders(live, req)
(* several entries decide only if they list the same endpoint *)
TiesAreSameEndpoint == \A e, f \in Deciders(live, req) : SameEndpoint(e, f)
(* unprotected exactly if nothing covers the request *)
NothingHidden == (Walk(live, req) = {}) <=> (\A e \in live : ~Covers(e, req))
(* another entry never takes protection away, removal of another entry neither *)
AddKeepsProtection == [][(live \subseteq live') => (Protected(live, req) => Protected(live', req))]_vars
RemoveOnlyAffectsDecided ==
  [][(live' \subseteq live /\ Deciders(live, req) \subseteq live') => Deciders(live', req) = Deciders(live, req)]_vars
===============================================================================
