---- MODULE NavDemandSim ----
EXTENDS NavDemand
CONSTANT Depth
VARIABLE hist
SimInit == Init /\ hist = <<>>
SimNext == Next /\ hist' = Append(hist, [o |-> op', x |-> Obs'])
(* Fill one stage first, so that the bound on outstanding work is reached. *)
Fill == \/ (gen = 0 /\ Begin) \/ (gen > 0 /\ \E k \in Keys \ (st["project"].pend \cup st["project"].fly) : Request(gen, "project", k))
        \/ (gen > 0 /\ Drain(gen, "project"))
Rest == IF \E i \in 1..Len(tick) : tick[i].out = "saturated" /\ i = Len(tick) THEN Poll(Len(tick)) ELSE
        \/ (\E k \in Keys, s \in Stages : Request(gen, s, k))
        \/ (\E i \in 1..Len(tick) : tick[i].out = "saturated" /\ Poll(i))
        \/ (\E k \in st["project"].fly : CompleteKeys(gen, "project", {k})) \/ Drain(gen, "project")
FillNext == /\ IF Outstanding("project") < Cap /\ Len(hist) < 40 THEN Fill ELSE Rest
            /\ hist' = Append(hist, [o |-> op', x |-> Obs'])
EmitH == Len(hist) = Depth => PrintT("@@" \o ToJson([steps |-> hist]))
====
