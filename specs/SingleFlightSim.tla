--------------------------- MODULE SingleFlightSim ---------------------------
EXTENDS SingleFlight
CONSTANT Depth
VARIABLE hist
SimInit == Init /\ hist = <<>>
SimNext == Next /\ hist' = Append(hist, [o |-> op', x |-> Obs'])
EmitH == (Len(hist) = Depth \/ (Len(calls) = MaxCalls /\ \A c \in 1..Len(calls) : calls[c].st # "waiting"))
           => PrintT("@@" \o ToJson([steps |-> hist]))
=============================================================================
