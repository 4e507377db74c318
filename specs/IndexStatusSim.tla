---- MODULE IndexStatusSim ----
EXTENDS IndexStatusMC
VARIABLE hist
CONSTANT Depth
InitS == Init /\ hist = <<>>
NextS == Next /\ hist' = Append(hist, [o |-> op', x |-> Obs'])
EmitH == Len(hist) < Depth \/ PrintT("@@" \o ToJson([steps |-> hist]))
====
