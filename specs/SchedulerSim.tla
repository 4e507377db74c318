---------------------------- MODULE SchedulerSim ----------------------------
EXTENDS Scheduler
CONSTANT Depth
VARIABLE hist
SimInit == Init /\ hist = <<>>
SimNext == Next /\ hist' = Append(hist, [o |-> op', x |-> Obs'])
EmitH == Len(hist) = Depth => PrintT("@@" \o ToJson([steps |-> hist]))
=============================================================================
