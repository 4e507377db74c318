---------------------------- MODULE ProjectsSim ----------------------------
EXTENDS Projects
CONSTANT Depth
VARIABLE hist
SimInit == Init /\ hist = <<[o |-> [a |-> "start", gem |-> gem, pol |-> pol, folders |-> folders], z |-> Z]>>
SimNext == (IF FolderOps /\ Len(hist) % 3 = 0 THEN \E fs \in FolderSets : Refolder(fs) ELSE Next) /\ hist' = Append(hist, [o |-> op', z |-> Z'])
EmitH == Len(hist) = Depth => PrintT("@@" \o ToJson([steps |-> [i \in 1..Len(hist) |-> [o |-> hist[i].o, x |-> ObsOf(hist[i].z)]]]))
=============================================================================
