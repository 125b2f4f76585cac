---------------------------- MODULE Sim_ClusterView -----------------------------
(* Random behaviours of ClusterView with what requests find after every step.     *)
EXTENDS ClusterView, SequencesExt
CONSTANT Depth
VARIABLE hist
Probes == { [ns |-> n, path |-> p, cred |-> c, allow |-> SetToSeq(Outcomes(n, p, c))] : n \in NS, p \in Paths, c \in Creds }
SInit == Init /\ hist = <<>>
SNext == Next /\ hist' = Append(hist, [act |-> act', probe |-> SetToSeq(Probes'), conn |-> conn', blind |-> blind'])
SSpec == SInit /\ [][SNext]_<<vars, hist>>
Emit == Len(hist) = Depth => PrintT("@@" \o ToJson([steps |-> hist]))
=================================================================================
