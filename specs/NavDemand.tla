------------------------------ MODULE NavDemand ------------------------------
(* Navigation demands raised by waiting editor requests against the indexing
   generation in progress. Every ticket ends with the right reason, work is
   bounded, and nobody waits on work that is finished, superseded or cancelled. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Keys, Cap, MaxGen, MaxTickets
Stages == {"project", "dependency"}
None == "none"
VARIABLES gen, cancelled, st, tick, op
vars == <<gen, cancelled, st, tick, op>>
View == <<gen, cancelled, st, tick>>
Empty == [pend |-> {}, fly |-> {}, done |-> {}, complete |-> FALSE]
Init == /\ gen = 0 /\ cancelled = FALSE /\ st = [s \in Stages |-> Empty] /\ tick = <<>> /\ op = [a |-> "init"]

(* What a ticket (generation g, stage s, key k) is told now; None: keep waiting *)
Outcome(g, s, k) ==
  IF g # gen \/ gen = 0 THEN "superseded" ELSE IF cancelled THEN "cancelled"
  ELSE IF k \in st[s].done THEN "processed" ELSE IF st[s].complete THEN "stagecomplete" ELSE None
Outstanding(s) == Cardinality(st[s].pend) + Cardinality(st[s].fly)

Begin == /\ gen < MaxGen /\ gen' = gen + 1 /\ cancelled' = FALSE /\ st' = [s \in Stages |-> Empty]
         /\ op' = [a |-> "begin", g |-> gen + 1] /\ UNCHANGED tick
Request(g, s, k) ==
  /\ Len(tick) < MaxTickets
  /\ LET now == Outcome(g, s, k)
         known == k \in st[s].pend \cup st[s].fly
         sat == now = None /\ ~known /\ Outstanding(s) >= Cap
         ins == now = None /\ ~known /\ ~sat IN
     /\ st' = IF ins THEN [st EXCEPT ![s].pend = @ \cup {k}] ELSE st
     /\ tick' = Append(tick, [g |-> g, s |-> s, k |-> k, out |-> IF sat THEN "saturated" ELSE now])
     /\ op' = [a |-> "request", g |-> g, s |-> s, k |-> k, id |-> Len(tick) + 1]
  /\ UNCHANGED <<gen, cancelled>>
(* The waiting request runs again. *)
Poll(i) ==
  /\ tick[i].out # "gone"
  /\ LET o == IF tick[i].out # None THEN tick[i].out ELSE Outcome(tick[i].g, tick[i].s, tick[i].k) IN
     /\ tick' = IF o = None THEN tick ELSE [tick EXCEPT ![i].out = "gone"]
     /\ op' = [a |-> "poll", id |-> i, res |-> o]
  /\ UNCHANGED <<gen, cancelled, st>>
Drain(g, s) ==
  LET ok == g = gen /\ ~cancelled /\ ~st[s].complete /\ gen > 0
      ks == IF ok THEN st[s].pend ELSE {} IN
  /\ st' = IF ok THEN [st EXCEPT ![s].pend = {}, ![s].fly = @ \cup ks] ELSE st
  /\ op' = [a |-> "drain", g |-> g, s |-> s, res |-> ks] /\ UNCHANGED <<gen, cancelled, tick>>
Claim(g, s, k) ==
  LET ok == g = gen /\ ~cancelled /\ ~st[s].complete /\ gen > 0
      r == ok /\ k \notin st[s].done /\ k \in st[s].pend \cup st[s].fly IN
  /\ st' = IF r THEN [st EXCEPT ![s].pend = @ \ {k}, ![s].fly = @ \cup {k}] ELSE st
  /\ op' = [a |-> "claim", g |-> g, s |-> s, k |-> k, res |-> r] /\ UNCHANGED <<gen, cancelled, tick>>
(* Only work that was handed out is reported complete (or work of a stale generation). *)
CompleteKeys(g, s, ks) ==
  /\ (g = gen /\ ~cancelled) => ks \subseteq st[s].fly
  /\ st' = IF g = gen /\ ~cancelled /\ gen > 0 THEN [st EXCEPT ![s].fly = @ \ ks, ![s].done = @ \cup ks] ELSE st
  /\ op' = [a |-> "completekeys", g |-> g, s |-> s, ks |-> ks] /\ UNCHANGED <<gen, cancelled, tick>>
CompleteStage(g, s) ==
  /\ st' = IF g = gen /\ ~cancelled /\ gen > 0 /\ ~st[s].complete
           THEN [st EXCEPT ![s].pend = {}, ![s].fly = {}, ![s].complete = TRUE] ELSE st
  /\ op' = [a |-> "completestage", g |-> g, s |-> s] /\ UNCHANGED <<gen, cancelled, tick>>
CancelGen(g) ==
  /\ LET ok == g = gen /\ ~cancelled /\ gen > 0 IN
     /\ cancelled' = (cancelled \/ ok)
     /\ st' = IF ok THEN [s \in Stages |-> [st[s] EXCEPT !.pend = {}, !.fly = {}]] ELSE st
  /\ op' = [a |-> "cancel", g |-> g] /\ UNCHANGED <<gen, tick>>

Gens == 1..gen
Next == \/ Begin
        \/ \E g \in Gens : \/ CancelGen(g)
             \/ \E s \in Stages : \/ Drain(g, s) \/ CompleteStage(g, s)
                   \/ \E k \in Keys : Request(g, s, k) \/ Claim(g, s, k)
                   \/ \E ks \in {{kk} : kk \in Keys} \cup {Keys} : CompleteKeys(g, s, ks)
        \/ \E i \in 1..Len(tick) : Poll(i)
MustWake == {i \in 1..Len(tick) : tick[i].out = None /\ Outcome(tick[i].g, tick[i].s, tick[i].k) # None}
Obs == [mustwake |-> MustWake]
BoundedWork == \A s \in Stages : Outstanding(s) <= Cap
Disjoint == \A s \in Stages : st[s].pend \cap st[s].fly = {} /\ (st[s].complete => st[s].pend \cup st[s].fly = {})
(* A ticket that still waits is backed by work the coordinator knows about. *)
Backed == \A i \in 1..Len(tick) : LET t == tick[i] IN
   (t.out = None /\ Outcome(t.g, t.s, t.k) = None) => t.k \in st[t.s].pend \cup st[t.s].fly
EmitT == PrintT("@@" \o ToJson([f |-> View, o |-> op', x |-> Obs', t |-> View']))
=============================================================================
