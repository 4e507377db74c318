------------------------------ MODULE Scheduler ------------------------------
(* Cross-project indexing admission: which queued project generation may run
   next, how many run at once, and who has to be woken when something changes.
   One action per critical section of the implementation's scheduler lock.   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Limit,       \* concurrency limit
          Roots,       \* project roots
          MaxTickets,  \* bound on registrations
          MaxReprio    \* bound on focus switches

Prios == {1, 2, 3}     \* 1 active document, 2 open document, 3 background
MaxBurst == 1
None == "none"

VARIABLES tk,       \* sequence of tickets [root, req, st, canc]; index = registration order
          focus,    \* the active project or None
          reprio,   \* number of focus switches
          burst,    \* priority admissions since a background one was passed over
          op        \* last operation with its result (observation only)
vars == <<tk, focus, reprio, burst, op>>
View == [tk |-> tk, focus |-> focus, reprio |-> reprio, burst |-> burst]

Ids == 1..Len(tk)
Queued == {i \in Ids : tk[i].st = "queued"}
Active == {i \in Ids : tk[i].st = "active"}
ActiveRoots == {tk[i].root : i \in Active}
Eff(i) == IF tk[i].root = focus THEN 1 ELSE tk[i].req
Adm == {i \in Queued : tk[i].root \notin ActiveRoots}
AdmBg == {i \in Adm : Eff(i) = 3}
Oldest(S) == CHOOSE i \in S : \A j \in S : i <= j
Best(S) == CHOOSE i \in S : \A j \in S : Eff(i) < Eff(j) \/ (Eff(i) = Eff(j) /\ i <= j)
HasRoom == Cardinality(Active) < Limit
Winner == IF ~HasRoom \/ Adm = {} THEN 0
          ELSE IF burst >= MaxBurst /\ AdmBg # {} THEN Oldest(AdmBg)
          ELSE Best(Adm)

(* Tickets whose waiting task must not be left asleep in this state. *)
MustWake == LET w == Winner IN {i \in Queued : tk[i].canc \/ i = w}

Init == tk = <<>> /\ focus = None /\ reprio = 0 /\ burst = 0 /\ op = [a |-> "init"]

Register(r, p) ==
  /\ Len(tk) < MaxTickets
  /\ tk' = Append(tk, [root |-> r, req |-> p, st |-> "queued", canc |-> FALSE])
  /\ op' = [a |-> "register", root |-> r, prio |-> p, id |-> Len(tk) + 1]
  /\ UNCHANGED <<focus, reprio, burst>>

(* The waiting task of ticket i runs: cancelled tickets leave the queue, the
   unique winner is admitted, everybody else keeps waiting.                  *)
Poll(i) ==
  /\ i \in Queued
  /\ IF tk[i].canc
     THEN /\ tk' = [tk EXCEPT ![i].st = "gone"]
          /\ op' = [a |-> "poll", id |-> i, res |-> "cancelled"]
          /\ UNCHANGED burst
     ELSE IF i = Winner
     THEN /\ tk' = [tk EXCEPT ![i].st = "active"]
          /\ burst' = IF Eff(i) = 3 \/ AdmBg = {} THEN 0 ELSE burst + 1
          /\ op' = [a |-> "poll", id |-> i, res |-> "admitted"]
     ELSE /\ op' = [a |-> "poll", id |-> i, res |-> "pending"]
          /\ UNCHANGED <<tk, burst>>
  /\ UNCHANGED <<focus, reprio>>

Release(i) ==
  /\ i \in Active
  /\ tk' = [tk EXCEPT ![i].st = "gone"]
  /\ op' = [a |-> "release", id |-> i]
  /\ UNCHANGED <<focus, reprio, burst>>

DropWaiter(i) ==
  /\ i \in Queued
  /\ tk' = [tk EXCEPT ![i].st = "gone"]
  /\ op' = [a |-> "drop", id |-> i]
  /\ UNCHANGED <<focus, reprio, burst>>

Cancel(i) ==
  /\ i \in Queued /\ ~tk[i].canc
  /\ tk' = [tk EXCEPT ![i].canc = TRUE]
  /\ op' = [a |-> "cancel", id |-> i]
  /\ UNCHANGED <<focus, reprio, burst>>

Prioritize(r) ==
  /\ reprio < MaxReprio
  /\ focus' = r
  /\ reprio' = IF focus = r THEN reprio ELSE reprio + 1
  /\ op' = [a |-> "prioritize", root |-> r]
  /\ UNCHANGED <<tk, burst>>

Next == \/ \E r \in Roots, p \in Prios : Register(r, p)
        \/ \E i \in Ids : Poll(i) \/ Release(i) \/ DropWaiter(i) \/ Cancel(i)
        \/ \E r \in Roots : Prioritize(r)

Spec == Init /\ [][Next]_vars

Obs == [active |-> Cardinality(Active), queued |-> Cardinality(Queued), focus |-> focus,
        reprio |-> reprio, mustwake |-> MustWake, limit |-> Limit]

(* ---- design properties ---- *)
WithinLimit == Cardinality(Active) <= Limit
OnePerProject == \A i, j \in Active : tk[i].root = tk[j].root => i = j
BurstBounded == burst <= MaxBurst
WorkConserving == (HasRoom /\ Adm # {}) => Winner \in Adm
(* No background ticket is overtaken twice in a row while it could have run. *)
FairToBackground ==
  [][\A i \in Ids : (tk[i].st = "queued" /\ tk'[i].st = "active") =>
       (burst >= MaxBurst /\ AdmBg # {} => Eff(i) = 3)]_vars
SameClassFifo ==
  [][\A i \in Ids : (tk[i].st = "queued" /\ tk'[i].st = "active") =>
       ~\E j \in Adm : j < i /\ Eff(j) = Eff(i)]_vars

(* ---- liveness: under a fair executor every admitted permit is released and
   every waiting task eventually runs, so nobody waits for ever             *)
LNext == \/ \E i \in Ids : Poll(i) \/ Release(i)
Fair == \A i \in 1..MaxTickets : WF_vars(i \in Ids /\ Poll(i)) /\ WF_vars(i \in Ids /\ Release(i))
LiveSpec == Init /\ [][Next]_vars /\ Fair
EventuallyServed == \A i \in 1..MaxTickets : (i \in Ids /\ tk[i].st = "queued") ~> (i \in Ids /\ tk[i].st # "queued")

(* ---- emission for replay ---- *)
EmitT == PrintT("@@" \o ToJson([f |-> View, o |-> op', x |-> Obs', t |-> View']))
=============================================================================
