----------------------------- MODULE EditorSim -----------------------------
EXTENDS Editor
CONSTANT Depth
VARIABLE hist
SimInit == Init /\ hist = <<[o |-> [a |-> "start"], x |-> Obs]>>
SimNext == Next /\ hist' = Append(hist, [o |-> op', x |-> Obs'])
EmitH == Len(hist) = Depth => PrintT("@@" \o ToJson([steps |-> hist]))
=============================================================================
