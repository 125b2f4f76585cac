-------------------------------- MODULE Bearer --------------------------------
(* The authorization header of requests decided by a JWT policy (C05). A       *)
(* header is a sequence of atoms, written one after the other:                 *)
(*   "SP" a space, "TAB", scheme words, and tokens: "a" valid, with scope read *)
(*   and claim role admin; "n" valid but without these; "x" badly signed;      *)
(*   "e" expired; "g" no token at all                                          *)
EXTENDS Naturals, Sequences, FiniteSets

Schemes == {"Bearer", "bearer", "Basic"}
TokenAtoms == {"a", "n", "x", "e", "g"}
Atoms == {"SP"} \union Schemes \union TokenAtoms

(* the policies: the rules of each, as <<claim, source>>; every rule asks for   *)
(* what the token "a" has and "n" lacks                                         *)
Policies == [ none      |-> <<>>,
              scope     |-> << <<"scope", "">> >>,
              scopeacc  |-> << <<"scope", "access_token">> >>,
              scopeid   |-> << <<"scope", "id_token">> >>,
              role      |-> << <<"role", "access_token">> >>,
              rolescope |-> << <<"role", "id_token">>, <<"scope", "">> >> ]
Range(s) == { s[i] : i \in 1..Len(s) }
RulesFor(p, pos) == { r \in Range(Policies[p]) : r[2] = pos \/ (r[2] = "" /\ pos = "access_token") }
ScopeRule(p) == \E r \in Range(Policies[p]) : r[1] = "scope"

ValidAt(p, pos, t) == \/ t = "a"
                      \/ t = "n" /\ RulesFor(p, pos) = {}

(* The form of the header, and the tokens it gives. "either" marks forms whose   *)
(* acceptance the property leaves open: another case of the scheme (RFC 7235     *)
(* makes it case insensitive), a trailing space. They must still be valid.       *)
Form(h) ==
  CASE Len(h) = 3 /\ h[1] \in {"Bearer", "bearer"} /\ h[2] = "SP" /\ h[3] \in TokenAtoms ->
         [ok |-> TRUE, access |-> h[3], id |-> "", open |-> h[1] = "bearer"]
    [] Len(h) = 4 /\ h[1] \in {"Bearer", "bearer"} /\ h[2] = "SP" /\ h[3] \in TokenAtoms /\ h[4] = "SP" ->
         [ok |-> TRUE, access |-> h[3], id |-> "", open |-> TRUE]
    [] Len(h) = 5 /\ h[1] \in {"Bearer", "bearer"} /\ h[2] = "SP" /\ h[3] \in TokenAtoms /\ h[4] = "SP" /\ h[5] \in TokenAtoms ->
         [ok |-> TRUE, access |-> h[3], id |-> h[5], open |-> h[1] = "bearer"]
    [] OTHER -> [ok |-> FALSE, access |-> "", id |-> "", open |-> FALSE]

Accepts(p, h) == LET f == Form(h) IN
  f.ok /\ ValidAt(p, "access_token", f.access) /\ (f.id # "" => ValidAt(p, "id_token", f.id))
Allowed(p, h) == IF Accepts(p, h) THEN (IF Form(h).open THEN {"accept", "reject"} ELSE {"accept"}) ELSE {"reject"}
(* the rejection must name the required scopes *)
NamesScopes(p, h) == Form(h).ok /\ ~Form(h).open /\ ~Accepts(p, h) /\ ScopeRule(p)

Headers(n) == UNION { [1..k -> Atoms] : k \in 0..n }
===============================================================================
