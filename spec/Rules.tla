--------------------------------- MODULE Rules --------------------------------
(* Access rules (C07): a rule names a claim by its dotted path, how it is to    *)
(* match, the values, and the kind of token it is about.                        *)
EXTENDS Naturals, Sequences, FiniteSets

Range(s) == { s[i] : i \in 1..Len(s) }

(* ---- claim values: their JSON text and what they mean ---------------------- *)
Q(s) == "\"" \o s \o "\""
RECURSIVE Join(_, _)
Join(s, sep) == IF Len(s) = 0 THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o sep \o Join(Tail(s), sep)
Map(s, F(_)) == [i \in 1..Len(s) |-> F(s[i])]

(* scalars *)
SStr(x) == [plain |-> x, json |-> Q(x)]
SNum(x, j) == [plain |-> x, json |-> j]
SBool(x) == [plain |-> x, json |-> x]
SBad(j) == [plain |-> "", json |-> j]

Words(ws) == [kind |-> "values", set |-> Range(ws), json |-> Q(Join(ws, " "))]
Scalar(s) == [kind |-> "values", set |-> {s.plain}, json |-> s.json]
JsonOf(s) == s.json
List(es) == [kind |-> IF \E i \in 1..Len(es) : es[i].plain = "" THEN "bad" ELSE "values",
             set |-> { es[i].plain : i \in 1..Len(es) }, json |-> "[" \o Join(Map(es, JsonOf), ",") \o "]"]
Object == [kind |-> "bad", set |-> {}, json |-> "{\"x\":\"x\"}"]
Absent == [kind |-> "absent", set |-> {}, json |-> ""]
Null == [kind |-> "null", set |-> {}, json |-> "null"]

X == SStr("x")  Y == SStr("y")  XY == SStr("x y")
N2 == SNum("2", "2")  N15 == SNum("1.5", "1.5")  NM == SNum("1000000", "1000000")  NE == SNum("1000000", "1e6")
N20 == SNum("2", "2.0")  NN == SNum("-3", "-3")  NL == SNum("9007199254740991", "9007199254740991")  NS == SNum("0.25", "0.25")  N21 == SNum("1000000000000000000000", "1e21")
T == SBool("true")  F == SBool("false")

Values == { Null, Object,
  Words(<<"x">>), Words(<<"y">>), Words(<<"x", "y">>), Words(<<"y", "z", "x">>), Words(<<"xy">>), Words(<<"x,y">>), Words(<<"X">>), Words(<<"true">>), Words(<<"2">>), Words(<<"2.5">>),
  Scalar(N2), Scalar(N15), Scalar(NM), Scalar(NE), Scalar(N20), Scalar(NN), Scalar(NL), Scalar(NS), Scalar(N21), Scalar(T), Scalar(F),
  List(<<>>), List(<<X>>), List(<<Y>>), List(<<X, Y>>), List(<<Y, X, X>>), List(<<XY>>), List(<<N2>>), List(<<N15, X>>), List(<<T>>), List(<<F, Y>>), List(<<X, N2, T>>), List(<<SStr("X"), SStr("xx")>>),
  List(<<X, SBad("{}")>>), List(<<SBad("{\"x\":\"x\"}")>>), List(<<X, SBad("[\"x\"]")>>), List(<<SBad("null"), X>>), List(<<X, Y, SBad("[]")>>) }

(* ---- where in a token the value is ----------------------------------------- *)
Places == {"c", "o.c", "o.p.c"}
OtherTokens == {"none", "scalar", "inlist", "deeper"}     \* tokens without the claim, in various ways
Token == [at : Places, v : Values] \union [at : OtherTokens, v : {Absent}]
TokenJson(t) ==
  CASE t.at = "c" -> "{\"c\":" \o t.v.json \o "}"
    [] t.at = "o.c" -> "{\"o\":{\"c\":" \o t.v.json \o "}}"
    [] t.at = "o.p.c" -> "{\"o\":{\"q\":1,\"p\":{\"c\":" \o t.v.json \o "}}}"
    [] t.at = "none" -> "{}"
    [] t.at = "scalar" -> "{\"o\":\"c\",\"d\":\"x\"}"
    [] t.at = "inlist" -> "{\"o\":[{\"c\":\"x\"}]}"
    [] OTHER -> "{\"o\":{\"p\":\"c\",\"d\":\"x\"}}"

RuleClaims == {"c", "o.c", "o.p.c", "o"}
LookUp(claim, t) ==
  CASE t.at = claim -> t.v
    [] claim = "o" /\ t.at \in {"o.c", "o.p.c", "inlist", "deeper"} -> Object
    [] claim = "o" /\ t.at = "scalar" -> Words(<<"c">>)
    [] claim = "o.c" /\ t.at = "c" -> Absent
    [] OTHER -> Absent

(* ---- rules ------------------------------------------------------------------ *)
Matches == {"", "ALL", "ANY", "NOT"}
Sources == {"", "access_token", "id_token"}
Applies(r, kind) == r.source = kind \/ (r.source = "" /\ kind = "access_token")

(* "yes", "no", or "open" where the property says nothing: a claim that is null  *)
Holds(r, t) ==
  LET v == LookUp(r.claim, t)
  IN  IF v.kind = "bad" THEN "no"
      ELSE CASE r.match = "NOT" -> IF v.kind = "null" THEN "open" ELSE IF Range(r.values) \cap v.set = {} THEN "yes" ELSE "no"
             [] r.match = "ANY" -> IF Range(r.values) \cap v.set # {} THEN "yes" ELSE "no"
             [] OTHER           -> IF Range(r.values) \subseteq v.set THEN "yes" ELSE "no"

(* what the rules say of a token of the given kind *)
TokenOk(rules, kind, t) ==
  LET rs == { Holds(r, t) : r \in { q \in Range(rules) : Applies(q, kind) } }
  IN  IF "no" \in rs THEN "no" ELSE IF "open" \in rs THEN "open" ELSE "yes"

(* the rule of an OIDC policy without rules *)
DefaultRule(client) == [claim |-> "aud", match |-> "ANY", values |-> <<client>>, source |-> ""]
===============================================================================
