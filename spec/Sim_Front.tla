-------------------------------- MODULE Sim_Front --------------------------------
(* Random behaviours of Front; all tokens expire after every Ticks steps, what the     *)
(* cluster holds changes at every third step.                                          *)
EXTENDS Front, SequencesExt, Randomization, Json
CONSTANTS Depth, Ticks
VARIABLE hist
Pick(S) == RandomElement(S)
SInit == Init /\ hist = <<>>
Broken == { k \in Kind : ~(rule[k] /\ conf[k]) }
Step(n, k) ==
  CASE Len(hist) % 4 = 3 /\ Broken # {} -> \E j \in {Pick(Broken)} : IF rule[j] THEN ToggleConf(j) ELSE ToggleRule(j)
    [] Len(hist) % 4 = 1 /\ n <= 4 /\ Broken = {} -> ToggleRule(k)
    [] Len(hist) % 4 = 1 /\ n <= 6 /\ Broken = {} -> ToggleConf(k)
    [] n <= 3 /\ alive["web"] = "yes" /\ conf["web"] /\ act.a = "ask" /\ act.kind = "web" -> Logout
    [] rule[k] /\ conf[k] /\ (alive[k] # "yes" \/ ~fresh[k]) /\ act.a # "logout" /\ n <= 8 /\ ~(Refreshes(k) /\ n <= 6) -> \E r \in {k = "web" /\ n % 3 # 0} : Begin(k, r)
    [] OTHER -> \E j \in {IF alive[k] # "no" THEN k ELSE "web"} : Ask(j)
SNext == /\ IF (Len(hist) + 1) % Ticks = 0 THEN Expire ELSE \E n \in {Pick(1..12)}, k \in {Pick({"api", "web", "web"})} : Step(n, k)
         /\ hist' = Append(hist, act')
SSpec == SInit /\ [][SNext]_<<vars, hist>>
Emit == Len(hist) = Depth => PrintT("@@" \o ToJson([steps |-> hist]))
==================================================================================
