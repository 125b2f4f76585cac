---------------------------- MODULE Gen_Resolution ----------------------------
(* Writes the cases replayed against the code: sets of entries with, for each *)
(* request, the entries that may decide it (by index).                        *)
EXTENDS Resolution, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt, Randomization

Big == "TIER" \in DOMAIN IOEnv /\ IOEnv.TIER = "thorough"

EPaths == { <<>>, <<"a">>, <<"a", "b">>, <<"ab">> }
EMethods == {"ALL", "GET", "POST"}
EntryUniverse == [kind : {"exact", "prefix"}, path : EPaths, method : EMethods]

RPaths == { <<>>, <<"a">>, <<"ab">>, <<"a", "b">>, <<"a", "c">>, <<"a", "b", "c">>, <<"b">>, <<"a", "", "b">>, <<"ab", "b">>, <<"A">>, <<"a", "b", "c", "d", "e">> }
RMethods == {"GET", "POST", "HEAD"}

Entry(e, form, mtext) == [kind |-> e.kind, path |-> e.path, method |-> e.method,
                          text |-> EntryText(e.kind, e.path, form), mtext |-> mtext]

MText(m, i) == IF m # "ALL" THEN m ELSE CASE i = 0 -> "ALL" [] i = 1 -> "" [] OTHER -> "TRACE"

Case(entries, paths, methods, endings) ==   \* entries: a sequence
  [entries |-> entries,
   reqs |-> SetToSeq({ [path |-> RequestText(q[1], q[3]), method |-> q[2],
                        allow |-> SetToSeq({i \in 1..Len(entries) :
                                  entries[i] \in Deciders(Range(entries), [path |-> q[1], method |-> q[2]])})]
                       : q \in paths \X methods \X endings })]

(* every entry alone, in all ways of writing it *)
Singles == { Case(<<Entry(e, f, MText(e.method, f))>>, RPaths, RMethods \union {"PATCH", "get", ""}, Endings)
             : <<e, f>> \in EntryUniverse \X (0..2) }
OtherMethods == { Case(<<Entry([kind |-> k, path |-> <<"a">>, method |-> m], 0, m)>>, {<<"a">>, <<"a", "b">>, <<>>},
                       KnownMethods \union {"HEAD", "OPTIONS", "CONNECT", ""}, {"plain"})
                  : <<k, m>> \in {"exact", "prefix"} \X KnownMethods }

PairForms(s) == LET q == SetToSeq(s) IN [i \in 1..Len(q) |-> Entry(q[i], i % 3, MText(q[i].method, (i + Len(q[i].path)) % 3))]
Pairs == { Case(PairForms(s), RPaths, RMethods, Endings) : s \in kSubset(2, EntryUniverse) }

Deep == [kind : {"exact", "prefix"}, path : { <<>>, <<"a">>, <<"a", "b">>, <<"a", "b", "c">>, <<"a", "b", "c", "d">> }, method : EMethods]
Many == { Case(PairForms(s), RPaths \union {<<"a", "b", "c", "d">>, <<"a", "b", "d">>, <<"a", "b", "c", "d", "e", "f">>}, RMethods, Endings)
          : s \in RandomSetOfSubsets(IF Big THEN 600 ELSE 80, 5, Deep) \ {{}} }
Triples == { Case(PairForms(s), RPaths, RMethods, {"plain", "slash", "callback", "logout"})
             : s \in RandomSubset(IF Big THEN 2000 ELSE 150, kSubset(3, EntryUniverse)) }

Chars == { Case(<<Entry([kind |-> k, path |-> p, method |-> "ALL"], 0, "ALL")>>,
                {p, p \o <<"x">>, <<p[1] \o "x">>, <<"x">>, <<>>}, {"GET"}, {"plain", "slash", "logout"})
           : <<k, p>> \in {"exact", "prefix"} \X
              { <<"%61">>, <<"a b">>, <<"a.b">>, <<"..">>, <<"oidc">>, <<"oidc", "x">>, <<"callback">>, <<"a", "oidc">>, <<"a?b">>, <<"a#">>, <<"a;b=1">>, <<"**">> } }

(* paths with the endpoints' names inside *)
Inner == { Case(<<Entry([kind |-> k1, path |-> p1, method |-> "ALL"], 0, "ALL"), Entry([kind |-> k2, path |-> p2, method |-> "ALL"], 1, "ALL")>>,
                {p2, <<"a">>, <<"a", "oidc">>}, {"GET"}, Endings)
           : <<k1, p1, k2, p2>> \in {"exact", "prefix"} \X {<<"a">>, <<"a", "oidc">>, <<>>} \X {"exact", "prefix"}
              \X { <<"a", "oidc", "callback", "b">>, <<"a", "oidc", "logout", "b">>, <<"a", "oidc", "callbackx">>, <<"a", "xoidc", "callback2">>, <<"oidc", "logout", "b", "c">> } }

ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Singles \union OtherMethods \union Chars \union Inner) \o SetToSeq(Pairs) \o SetToSeq(Many) \o SetToSeq(Triples))
===============================================================================
