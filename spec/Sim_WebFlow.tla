----------------------------- MODULE Sim_WebFlow ------------------------------
(* Random behaviours of WebFlow, printed for replay.                            *)
EXTENDS WebFlow
VARIABLE hist
Depth == 40
SInit == Init /\ hist = <<>>
SNext == Next /\ hist' = Append(hist, ev')
SSpec == SInit /\ [][SNext]_<<vars, hist>>
Emit == Len(hist) = Depth => PrintT("@@" \o ToJson([steps |-> hist, sessions |-> sessions]))
===============================================================================
