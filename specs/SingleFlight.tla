----------------------------- MODULE SingleFlight ----------------------------
(* Coalescing caches. A key is absent, being produced by exactly one producer,
   or completed. Everybody who asks while it is being produced gets that
   production's outcome; failures are never retained; completed products are
   retained within an entry and a weight limit, oldest production first out,
   and never at the expense of a production in progress.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Keys, MaxCalls,
          MaxEntries, MaxWeight,   \* 0,0: nothing is retained
          Weights,
          Abandonable              \* TRUE: waiting callers can go away (async caches)

VARIABLES ent,    \* key -> [st |-> "absent"|"flight"|"done", g, w]
          calls,  \* sequence of [key, st, g]: st waiting/ok/err/panic/left; g the production it observed
          gen,    \* productions started so far
          cnt,    \* counters
          op
vars == <<ent, calls, gen, cnt, op>>
View == [ent |-> ent, calls |-> calls, gen |-> gen, cnt |-> cnt]

Absent == [st |-> "absent", g |-> 0, w |-> 0]
Init == /\ ent = [k \in Keys |-> Absent] /\ calls = <<>> /\ gen = 0
        /\ cnt = [lookups |-> 0, hits |-> 0, joined |-> 0, misses |-> 0, producers |-> 0, failures |-> 0, evictions |-> 0]
        /\ op = [a |-> "init"]

Call(k) ==
  /\ Len(calls) < MaxCalls
  /\ LET c == Len(calls) + 1
         L(f) == [cnt EXCEPT !.lookups = @ + 1, ![f] = @ + 1] IN
     \/ /\ ent[k].st = "absent"
        /\ gen' = gen + 1
        /\ ent' = [ent EXCEPT ![k] = [st |-> "flight", g |-> gen + 1, w |-> 0]]
        /\ calls' = Append(calls, [key |-> k, st |-> "waiting", g |-> gen + 1])
        /\ cnt' = [L("misses") EXCEPT !.producers = @ + 1]
        /\ op' = [a |-> "call", c |-> c, k |-> k, kind |-> "produce", g |-> gen + 1]
     \/ /\ ent[k].st = "flight"
        /\ calls' = Append(calls, [key |-> k, st |-> "waiting", g |-> ent[k].g])
        /\ cnt' = L("joined")
        /\ op' = [a |-> "call", c |-> c, k |-> k, kind |-> "join", g |-> ent[k].g]
        /\ UNCHANGED <<ent, gen>>
     \/ /\ ent[k].st = "done"
        /\ calls' = Append(calls, [key |-> k, st |-> "ok", g |-> ent[k].g])
        /\ cnt' = L("hits")
        /\ op' = [a |-> "call", c |-> c, k |-> k, kind |-> "hit", g |-> ent[k].g]
        /\ UNCHANGED <<ent, gen>>

Resolve(k, st) == [c \in 1..Len(calls) |->
   IF calls[c].key = k /\ calls[c].st = "waiting" THEN [calls[c] EXCEPT !.st = st] ELSE calls[c]]

DoneKeys(e) == {k \in Keys : e[k].st = "done"}
RECURSIVE WSum(_, _)
WSum(e, S) == IF S = {} THEN 0 ELSE LET k == CHOOSE k \in S : TRUE IN e[k].w + WSum(e, S \ {k})
RECURSIVE Evict(_)
Evict(e) == LET D == DoneKeys(e) IN
  IF Cardinality(D) <= MaxEntries /\ WSum(e, D) <= MaxWeight THEN e
  ELSE LET k == CHOOSE k \in D : \A j \in D : e[k].g <= e[j].g IN Evict([e EXCEPT ![k] = Absent])

FinishOk(k, w) ==
  /\ ent[k].st = "flight"
  /\ LET e1 == [ent EXCEPT ![k] = [st |-> "done", g |-> ent[k].g, w |-> w]] e2 == Evict(e1) IN
     /\ ent' = e2
     /\ cnt' = [cnt EXCEPT !.evictions = @ + Cardinality(DoneKeys(e1)) - Cardinality(DoneKeys(e2))]
  /\ calls' = Resolve(k, "ok")
  /\ op' = [a |-> "finish", k |-> k, how |-> "ok", w |-> w]
  /\ UNCHANGED gen

FinishBad(k, how) ==
  /\ ent[k].st = "flight"
  /\ ent' = [ent EXCEPT ![k] = Absent]
  /\ cnt' = [cnt EXCEPT !.failures = @ + 1]
  /\ calls' = Resolve(k, "failed")
  /\ op' = [a |-> "finish", k |-> k, how |-> how, w |-> 0]
  /\ UNCHANGED gen

Leave(c) ==
  /\ Abandonable /\ calls[c].st = "waiting"
  /\ calls' = [calls EXCEPT ![c].st = "left"]
  /\ op' = [a |-> "leave", c |-> c]
  /\ UNCHANGED <<ent, gen, cnt>>

Next == \/ \E k \in Keys : Call(k) \/ (\E w \in Weights : FinishOk(k, w))
                           \/ (\E h \in {"err", "panic"} : FinishBad(k, h))
        \/ \E c \in 1..Len(calls) : Leave(c)
Spec == Init /\ [][Next]_vars

Obs == [calls |-> [c \in 1..Len(calls) |-> [st |-> calls[c].st, g |-> calls[c].g]],
        present |-> {k \in Keys : ent[k].st # "absent"}, weight |-> WSum(ent, DoneKeys(ent)), cnt |-> cnt,
        entries |-> Cardinality({k \in Keys : ent[k].st # "absent"})]

OneProducer == \A c, d \in 1..Len(calls) :
   (calls[c].st = "waiting" /\ calls[d].st = "waiting" /\ calls[c].key = calls[d].key) => calls[c].g = calls[d].g
Bounded == Cardinality(DoneKeys(ent)) <= MaxEntries /\ WSum(ent, DoneKeys(ent)) <= MaxWeight
FlightServed == \A c \in 1..Len(calls) : calls[c].st = "waiting" => ent[calls[c].key].st = "flight"
Balanced == cnt.lookups = cnt.hits + cnt.joined + cnt.misses /\ cnt.producers = cnt.misses
LiveSpec == Spec /\ \A k \in Keys : WF_vars(\E w \in Weights : FinishOk(k, w))
EveryWaiterServed == \A c \in 1..MaxCalls : (c <= Len(calls) /\ calls[c].st = "waiting") ~> (c <= Len(calls) /\ calls[c].st # "waiting")

EmitT == PrintT("@@" \o ToJson([f |-> View, o |-> op', x |-> Obs', t |-> View']))
=============================================================================
