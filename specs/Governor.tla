------------------------------ MODULE Governor -------------------------------
(* Process-wide indexing resource admission: CPU lanes, task slots, transient
   memory and I/O slots are claimed together or not at all; priority with a
   bounded burst over waiting background work; whole-project parallel work of
   other projects stands back while the focused project's navigation build is
   pending; every claim is given back exactly once.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS CpuMax, TaskMax, MemMax, IoMax, MaxTickets, MaxReprio, BigMenu, Threads

None == "none"
Roots == {"/p/a", "/p/b"}
MaxBurst == 1
K(r, p, c, m, i, pp) == [root |-> r, prio |-> p, cpu |-> c, mem |-> m, io |-> i, pp |-> pp]
SmallMenu == { K("/p/a", 2, 1, 1, 0, FALSE), K("/p/b", 3, 2, 1, 0, TRUE), K("/p/a", 3, 1, 2, 1, TRUE),
               K(None, 3, 1, 1, 0, FALSE), K("/p/b", 1, 1, 1, 1, FALSE) }
FullMenu == { K(r, p, c, m, i, pp) : r \in Roots, p \in 1..3, c \in 1..CpuMax, m \in 1..MemMax, i \in 0..IoMax, pp \in BOOLEAN }
            \cup { K(None, p, c, m, i, FALSE) : p \in 1..3, c \in 1..CpuMax, m \in 1..MemMax, i \in 0..IoMax }
Menu == IF BigMenu THEN FullMenu ELSE SmallMenu

VARIABLES tk,      \* tickets [k, th, st, canc], st in queued/running/left/gone; th: on a worker thread;
                   \* left: nobody waits for the result, the thread works on and keeps its claim
          focus, reprio, nav, burst,
          done, panicked, cbefore, cafter,   \* outcome counters
          peak,    \* [task, cpu, mem, io] high-water marks
          op
vars == <<tk, focus, reprio, nav, burst, done, panicked, cbefore, cafter, peak, op>>
View == [tk |-> tk, focus |-> focus, reprio |-> reprio, nav |-> nav, burst |-> burst]

Ids == 1..Len(tk)
QueuedIn(s) == {i \in 1..Len(s) : s[i].st = "queued"}
RunningIn(s) == {i \in 1..Len(s) : s[i].st \in {"running", "left"}}
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Sum(f, S \ {x})
Use(s) == LET R == RunningIn(s) IN
  [task |-> Cardinality(R), cpu |-> Sum([i \in R |-> s[i].k.cpu], R), mem |-> Sum([i \in R |-> s[i].k.mem], R),
   io |-> Sum([i \in R |-> s[i].k.io], R)]
Blocked(k) == k.pp /\ nav /\ focus # k.root
Fits(k, u) == /\ ~Blocked(k) /\ u.task < TaskMax /\ u.cpu + k.cpu <= CpuMax
              /\ u.mem + k.mem <= MemMax /\ u.io + k.io <= IoMax
Eff(k) == IF focus # None /\ k.root = focus THEN 1 ELSE k.prio
\* (A bound x \in {e} makes TLC evaluate e once.)
Adm(s) == UNION {{i \in QueuedIn(s) : Fits(s[i].k, u)} : u \in {Use(s)}}
AdmBg(s) == {i \in Adm(s) : Eff(s[i].k) = 3}
Oldest(S) == CHOOSE i \in S : \A j \in S : i <= j
BestOf(s, S) == CHOOSE i \in S : \A j \in S : Eff(s[i].k) < Eff(s[j].k) \/ (Eff(s[i].k) = Eff(s[j].k) /\ i <= j)
WinnerOf(s, A, B) == IF A = {} THEN 0 ELSE IF burst >= MaxBurst /\ B # {} THEN Oldest(B) ELSE BestOf(s, A)
Winner(s) == CHOOSE w \in UNION {{WinnerOf(s, A, B) : B \in {{i \in A : Eff(s[i].k) = 3}}} : A \in {Adm(s)}} : TRUE
MustWake == UNION {{i \in QueuedIn(tk) : tk[i].canc \/ i = w} : w \in {Winner(tk)}}
Max(a, b) == IF a > b THEN a ELSE b
Peaks(u) == [task |-> Max(peak.task, u.task), cpu |-> Max(peak.cpu, u.cpu), mem |-> Max(peak.mem, u.mem), io |-> Max(peak.io, u.io)]

Init == /\ tk = <<>> /\ focus = None /\ reprio = 0 /\ nav = FALSE /\ burst = 0
        /\ done = 0 /\ panicked = 0 /\ cbefore = 0 /\ cafter = 0
        /\ peak = [task |-> 0, cpu |-> 0, mem |-> 0, io |-> 0] /\ op = [a |-> "init"]

(* The waiting task of ticket i looks at the queue s (i is queued in s). *)
Look(s, i, o) ==
  IF s[i].canc
  THEN /\ tk' = [s EXCEPT ![i].st = "gone"] /\ cbefore' = cbefore + 1
       /\ op' = o @@ [res |-> "cancelled"] /\ UNCHANGED <<burst, peak>>
  ELSE IF Winner(s) = i
  THEN /\ tk' = [s EXCEPT ![i].st = "running"]
       /\ burst' = IF Eff(s[i].k) = 3 \/ (AdmBg(s) \ {i}) = {} THEN 0 ELSE burst + 1
       /\ peak' = CHOOSE p \in {Peaks(u) : u \in {Use(tk')}} : TRUE
       /\ op' = o @@ [res |-> "running"] /\ UNCHANGED cbefore
  ELSE /\ tk' = s /\ op' = o @@ [res |-> "pending"] /\ UNCHANGED <<burst, peak, cbefore>>

Submit(k, pre, th) ==
  /\ Len(tk) < MaxTickets
  /\ Look(Append(tk, [k |-> k, th |-> th, st |-> "queued", canc |-> pre]), Len(tk) + 1,
          [a |-> "submit", k |-> k, th |-> th, pre |-> pre, id |-> Len(tk) + 1])
  /\ UNCHANGED <<focus, reprio, nav, done, panicked, cafter>>
SubmitImpossible(d) ==
  /\ op' = [a |-> "impossible", dim |-> d, res |-> "rejected"]
  /\ UNCHANGED <<tk, focus, reprio, nav, burst, done, panicked, cbefore, cafter, peak>>
Poll(i) ==
  /\ i \in QueuedIn(tk)
  /\ Look(tk, i, [a |-> "poll", id |-> i])
  /\ UNCHANGED <<focus, reprio, nav, done, panicked, cafter>>
Complete(i) ==
  /\ i \in RunningIn(tk) /\ tk' = [tk EXCEPT ![i].st = "gone"] /\ done' = done + 1
  /\ op' = [a |-> "complete", id |-> i]
  /\ UNCHANGED <<focus, reprio, nav, burst, panicked, cbefore, cafter, peak>>
Panic(i) ==
  /\ i \in RunningIn(tk) /\ tk' = [tk EXCEPT ![i].st = "gone"] /\ panicked' = panicked + 1
  /\ op' = [a |-> "panic", id |-> i]
  /\ UNCHANGED <<focus, reprio, nav, burst, done, cbefore, cafter, peak>>
DropRunning(i) ==
  /\ tk[i].st = "running" /\ ~tk[i].th /\ tk' = [tk EXCEPT ![i].st = "gone"] /\ cafter' = cafter + 1
  /\ op' = [a |-> "droprunning", id |-> i]
  /\ UNCHANGED <<focus, reprio, nav, burst, done, cbefore, panicked, peak>>
LeaveRunning(i) ==
  /\ tk[i].st = "running" /\ tk[i].th /\ tk' = [tk EXCEPT ![i].st = "left"]
  /\ op' = [a |-> "leaverunning", id |-> i]
  /\ UNCHANGED <<focus, reprio, nav, burst, done, cbefore, cafter, panicked, peak>>
DropWaiter(i) ==
  /\ i \in QueuedIn(tk) /\ tk' = [tk EXCEPT ![i].st = "gone"]
  /\ op' = [a |-> "dropwaiter", id |-> i]
  /\ UNCHANGED <<focus, reprio, nav, burst, done, cbefore, cafter, panicked, peak>>
Cancel(i) ==
  /\ i \in QueuedIn(tk) /\ ~tk[i].canc /\ tk' = [tk EXCEPT ![i].canc = TRUE]
  /\ op' = [a |-> "cancel", id |-> i]
  /\ UNCHANGED <<focus, reprio, nav, burst, done, cbefore, cafter, panicked, peak>>
Focus(r, np) ==
  /\ reprio < MaxReprio
  /\ focus' = r /\ nav' = np /\ reprio' = IF focus = r THEN reprio ELSE reprio + 1
  /\ op' = [a |-> "focus", root |-> r, nav |-> np]
  /\ UNCHANGED <<tk, burst, done, cbefore, cafter, panicked, peak>>
NavPending(r) ==
  /\ nav' = (IF focus = r THEN TRUE ELSE nav) /\ op' = [a |-> "navpending", root |-> r]
  /\ UNCHANGED <<tk, focus, reprio, burst, done, cbefore, cafter, panicked, peak>>
NavComplete(r, how) ==
  /\ nav' = (IF focus = r THEN FALSE ELSE nav) /\ op' = [a |-> "navcomplete", root |-> r, how |-> how]
  /\ UNCHANGED <<tk, focus, reprio, burst, done, cbefore, cafter, panicked, peak>>

Next == \/ \E k \in Menu, pre \in BOOLEAN, th \in (IF Threads THEN BOOLEAN ELSE {FALSE}) :
             (pre => k = (CHOOSE z \in SmallMenu : TRUE)) /\ Submit(k, pre, th)
        \/ \E d \in {"cpu", "mem", "io"} : Len(tk) = 1 /\ SubmitImpossible(d)
        \/ \E i \in Ids : Poll(i) \/ Complete(i) \/ Panic(i) \/ DropRunning(i) \/ LeaveRunning(i) \/ DropWaiter(i) \/ Cancel(i)
        \/ \E r \in Roots : (\E np \in BOOLEAN : Focus(r, np)) \/ NavPending(r)
                            \/ (\E h \in {"call", "guard"} : NavComplete(r, h))
Spec == Init /\ [][Next]_vars

ParLanes(r) == IF focus = r /\ nav THEN Max(CpuMax - 1, 1) ELSE Max(CpuMax \div TaskMax, 1)
ObsWith(u) ==
  [queued |-> Cardinality(QueuedIn(tk)), task |-> u.task, cpu |-> u.cpu, mem |-> u.mem, io |-> u.io,
   focus |-> focus, reprio |-> reprio, nav |-> nav, done |-> done, panicked |-> panicked, cbefore |-> cbefore,
   cafter |-> cafter, peak |-> peak, mustwake |-> MustWake, lanes |-> [r \in Roots |-> ParLanes(r)]]
Obs == CHOOSE o \in {ObsWith(u) : u \in {Use(tk)}} : TRUE

WithinLimits == LET u == Use(tk) IN u.task <= TaskMax /\ u.cpu <= CpuMax /\ u.mem <= MemMax /\ u.io <= IoMax
PeaksWithin == peak.task <= TaskMax /\ peak.cpu <= CpuMax /\ peak.mem <= MemMax /\ peak.io <= IoMax
BurstBounded == burst <= MaxBurst
Accounted == done + panicked + cafter + cbefore <= Len(tk)
NavReserves == [][\A i \in Ids : (tk[i].st = "queued" /\ tk'[i].st = "running") => ~Blocked(tk[i].k)]_vars
FairToBackground == [][\A i \in Ids : (tk[i].st = "queued" /\ tk'[i].st = "running") =>
       (burst >= MaxBurst /\ AdmBg(tk) # {} => Eff(tk[i].k) = 3)]_vars

(* Counters and high-water marks depend on the path, so the state-graph replay
   compares the rest only; the simulated behaviours compare everything.      *)
ObsV == LET o == Obs IN [f \in (DOMAIN o) \ {"done", "panicked", "cbefore", "cafter", "peak"} |-> o[f]]
EmitT == PrintT("@@" \o ToJson([f |-> View, o |-> op', x |-> ObsV', t |-> View']))
=============================================================================
