----------------------------- MODULE GovernorSim -----------------------------
EXTENDS Governor
CONSTANT Depth
VARIABLE hist
SimInit == Init /\ hist = <<>>
SimNext == Next /\ hist' = Append(hist, [o |-> op', x |-> Obs'])
EmitH == Len(hist) = Depth => PrintT("@@" \o ToJson([limits |-> [cpu |-> CpuMax, task |-> TaskMax, mem |-> MemMax, io |-> IoMax], steps |-> hist]))
=============================================================================
