------------------------------ MODULE Gen_Malformed ------------------------------
EXTENDS Malformed, Json, IOUtils, SequencesExt
List(c) == [c EXCEPT !.allow = SetToSeq(@)]
More(c) == LET d == List(c) IN
  CASE c.part = "structure" -> [d EXCEPT !.has = SetToSeq(@)]
    [] c.part \in {"doc", "wire"} -> [d EXCEPT !.after = SetToSeq(@)]
    [] c.part = "key" -> [d EXCEPT !.other = SetToSeq(@)]
    [] OTHER -> d
Lines(S) == LET q == SetToSeq(S) IN [i \in DOMAIN q |-> More(q[i])]
ASSUME ndJsonSerialize(IOEnv.OUT, FlattenSeq([i \in DOMAIN All |-> Lines(All[i])]))
==================================================================================
