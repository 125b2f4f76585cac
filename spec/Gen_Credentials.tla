---------------------------- MODULE Gen_Credentials -----------------------------
(* Single configurations: every text of ids and secrets, every source of the secret *)
EXTENDS Credentials, SequencesExt, Json, IOUtils
Text == {"plain", "with space", "plus+", "pct%41", "amp&eq=", "colon:s", "@UTF8@", "quote\"'\\", "slash/?#", "@LONG@", " lead", "trail ", "a\tb", ",;"}
Source == {"plain", "ref", "both", "missingref", "emptyref", "nokeyref"}
Ids == Text \ {"a\tb"}
(* the secret "other" is the plain one where both are given; it counts if the reference leads nowhere *)
Counts(s) == IF s \in {"plain", "ref", "both"} THEN "text" ELSE "other"
Cases == { [id |-> i, secret |-> s, method |-> m, source |-> src, how |-> How([method |-> m]), counts |-> Counts(src)]
           : <<i, s, m, src>> \in { x \in Ids \X Text \X Method \X Source : (x[1] = "plain" /\ x[2] \in Text) \/ (x[2] = "plain" /\ x[4] = "ref") \/ (x[1] = x[2] /\ x[4] = "both") } }
GNext == UNCHANGED vars
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
=================================================================================
