------------------------------ MODULE Gen_Bearer ------------------------------
EXTENDS Bearer, TLC, Json, IOUtils, SequencesExt, Randomization
Big == "TIER" \in DOMAIN IOEnv /\ IOEnv.TIER = "thorough"
P == DOMAIN Policies
Row(h) == [h |-> h, allow |-> [p \in P |-> SetToSeq(Allowed(p, h))], scopes |-> [p \in P |-> NamesScopes(p, h)]]
(* all headers of up to 3 atoms; those of 4 and 5 whose first word is a scheme   *)
Hs == Headers(3) \union { h \in [1..4 -> Atoms] : h[1] \in Schemes }
      \union { h \in [1..5 -> Atoms] : h[1] \in {"Bearer", "bearer"} /\ h[2] = "SP" }
Odd == { <<"Bearer", "SP", x, "SP", y, "SP">> : <<x, y>> \in TokenAtoms \X TokenAtoms }
       \union { <<"Bearer", "SP", x, "SP", y, "SP", z>> : <<x, y, z>> \in {"a", "n", "x"} \X {"a", "n", "x"} \X {"a", "x"} }
       \union { <<"SP", "Bearer", "SP", "a">>, <<"SP", "Bearer", "SP", "a", "SP", "a">>, <<"Bearer", "SP", "SP", "a">>, <<"Bearer", "SP", "SP", "SP", "a", "SP", "a">>,
                <<"Bearer", "TAB", "a">>, <<"Bearer", "SP", "a", "TAB", "a">>, <<"Bearer", "SP", "TAB", "a">>, <<"TAB", "Bearer", "SP", "a">>, <<"Bearer", "SP", "Bearer", "SP", "a">> }
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({ Row(h) : h \in Hs \union Odd }))
===============================================================================
