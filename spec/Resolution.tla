------------------------------ MODULE Resolution ------------------------------
(* Which policy entry decides a request.                                      *)
(* A path is the sequence of its segments, "/" being the empty sequence; an   *)
(* entry protects one path ("exact") or a path and all below it ("prefix"),   *)
(* for one method or for all.                                                 *)
EXTENDS Naturals, Sequences, FiniteSets

KnownMethods == {"GET", "PUT", "POST", "DELETE", "PATCH"}

(* Any other method, in an entry or in a request, stands for all methods      *)
NormMethod(m) == IF m \in KnownMethods THEN m ELSE "ALL"

IsPathPrefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p

CoversPath(e, p) == IF e.kind = "exact" THEN e.path = p ELSE IsPathPrefix(e.path, p)

CoversMethod(e, m) == NormMethod(e.method) \in {"ALL", NormMethod(m)}

Covers(e, r) == CoversPath(e, r.path) /\ CoversMethod(e, r.method)

(* exact before prefix, longer prefix first, the method's own entry first     *)
Rank(e) == (IF e.kind = "exact" THEN 1000 ELSE 0) + 2 * Len(e.path)
           + (IF NormMethod(e.method) # "ALL" THEN 1 ELSE 0)

(* The entries that may decide the request: more than one only if several     *)
(* list the very same endpoint; none if the request is not protected.         *)
Deciders(entries, r) ==
  LET cov == {e \in entries : Covers(e, r)}
  IN  {e \in cov : \A f \in cov : Rank(f) <= Rank(e)}

Protected(entries, r) == Deciders(entries, r) # {}

SameEndpoint(e, f) == e.kind = f.kind /\ e.path = f.path /\ NormMethod(e.method) = NormMethod(f.method)

(***************************************************************************)
(* The lookup as the code does it: candidate keys from the path itself to  *)
(* the root's prefix, at each of them first the method then ALL.           *)
(***************************************************************************)
RECURSIVE PrefixesDown(_)
PrefixesDown(p) == IF p = <<>> THEN << <<>> >>
                   ELSE <<p>> \o PrefixesDown(SubSeq(p, 1, Len(p) - 1))

Candidates(p) == << [kind |-> "exact", path |-> p] >>
                 \o [i \in 1..(Len(p) + 1) |-> [kind |-> "prefix", path |-> PrefixesDown(p)[i]]]

At(entries, key, m) == {e \in entries : e.kind = key.kind /\ e.path = key.path /\ NormMethod(e.method) = m}

RECURSIVE WalkFrom(_, _, _)
WalkFrom(entries, cands, m) ==
  IF cands = <<>> THEN {}
  ELSE LET own == At(entries, Head(cands), m)
           all == At(entries, Head(cands), "ALL")
       IN  IF own # {} THEN own
           ELSE IF all # {} THEN all
           ELSE WalkFrom(entries, Tail(cands), m)

Walk(entries, r) == WalkFrom(entries, Candidates(r.path), NormMethod(r.method))

(***************************************************************************)
(* Text                                                                    *)
(***************************************************************************)
RECURSIVE Join(_)
Join(p) == IF p = <<>> THEN "" ELSE "/" \o Head(p) \o Join(Tail(p))

PathText(p) == IF p = <<>> THEN "/" ELSE Join(p)

(* The ways an entry may be written: form \in 0..2 *)
EntryText(kind, p, form) ==
  IF kind = "exact"
  THEN IF p = <<>> THEN "/" ELSE Join(p) \o (CASE form = 1 -> "/" [] form = 2 -> "//" [] OTHER -> "")
  ELSE CASE form = 1 -> Join(p) \o "/" [] form = 2 -> Join(p) \o "/*" [] OTHER -> PathText(p)

(* The ways a request for a path may be written *)
Endings == {"plain", "bare", "slash", "slashes", "callback", "logout", "callbackslash"}
RequestText(p, ending) ==
  CASE ending = "plain" -> PathText(p)
    [] ending = "bare" -> Join(p)              \* the root as the empty path
    [] ending = "slash" -> Join(p) \o "/"
    [] ending = "slashes" -> Join(p) \o "//"
    [] ending = "callback" -> Join(p) \o "/oidc/callback"
    [] ending = "callbackslash" -> Join(p) \o "/oidc/callback/"
    [] ending = "logout" -> Join(p) \o "/oidc/logout"
    [] OTHER -> ""
===============================================================================
