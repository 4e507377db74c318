------------------------------ MODULE DiskCache ------------------------------
(* The on-disk cache of derived products shared by several servers (processes):
   lookups, exclusive reservations, atomic publication, eviction, damage to
   files, invalidation, clearing, restarts and crashes.
   A product is identified by the version number its publisher put into it. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Procs, Keys, Weights, MaxEntries, MaxBytes, MaxClock, Waiting, Damages, Crashes, Single
None == "none"
VARIABLES disk, res, init, wait, clock, op
vars == <<disk, res, init, wait, clock, op>>
View == <<disk, res, init, wait, clock>>
Absent == [st |-> None, v |-> 0, w |-> 0]
Init == /\ disk = [k \in Keys |-> Absent] /\ res = {} /\ init = [p \in Procs |-> FALSE] /\ wait = {}
        /\ clock = 0 /\ op = [a |-> "init"]

Held(k) == \E r \in res : r.k = k
Waited(k) == \E w \in wait : w.k = k
Quiet == res = {} /\ wait = {}
Go == clock < MaxClock

(* First use by a process takes stock of the directory, alone. *)
CanUse(p) == init[p] \/ Quiet
Lookup(p, k) ==
  /\ Go /\ CanUse(p) /\ init' = [init EXCEPT ![p] = TRUE]
  /\ ~\E w \in wait : w.p = p /\ w.k = k
  /\ IF disk[k].st = "ok"
     THEN op' = [a |-> "lookup", p |-> p, k |-> k, res |-> "hit", v |-> disk[k].v] /\ UNCHANGED <<disk, res, wait>>
     ELSE IF Held(k)
     THEN /\ Waiting /\ ~Waited(k) /\ wait' = wait \cup {[p |-> p, k |-> k]}
          /\ op' = [a |-> "lookup", p |-> p, k |-> k, res |-> "wait", v |-> 0] /\ UNCHANGED <<disk, res>>
     ELSE /\ (Single => res = {}) /\ res' = res \cup {[p |-> p, k |-> k]} /\ disk' = [disk EXCEPT ![k] = Absent]
          /\ op' = [a |-> "lookup", p |-> p, k |-> k, res |-> "reserve", v |-> 0] /\ UNCHANGED wait
  /\ UNCHANGED clock

Used(d) == {k \in Keys : d[k].st # None}
RECURSIVE Bytes(_, _)
Bytes(d, ks) == IF ks = {} THEN 0 ELSE LET k == CHOOSE x \in ks : TRUE IN d[k].w + Bytes(d, ks \ {k})
Over(d) == Cardinality(Used(d)) > MaxEntries \/ Bytes(d, Used(d)) > MaxBytes
RECURSIVE Evict(_)
Evict(d) == IF ~Over(d) THEN d
            ELSE LET old == CHOOSE k \in Used(d) : \A j \in Used(d) : d[k].v <= d[j].v IN Evict([d EXCEPT ![old] = Absent])

(* A waiter on k goes on as soon as the reservation is gone. *)
Release(r, k, d) ==
  IF Waited(k)
  THEN LET w == CHOOSE x \in wait : x.k = k IN
       /\ wait' = wait \ {w}
       /\ IF d[k].st = "ok" THEN res' = res \ {r} ELSE res' = (res \ {r}) \cup {w}
  ELSE wait' = wait /\ res' = res \ {r}
Woken(k, d) == IF ~Waited(k) THEN [p |-> 0, res |-> None, v |-> 0]
               ELSE LET w == CHOOSE x \in wait : x.k = k IN
                    IF d[k].st = "ok" THEN [p |-> w.p, res |-> "hit", v |-> d[k].v] ELSE [p |-> w.p, res |-> "reserve", v |-> 0]

Publish(r, w) ==
  LET d1 == [disk EXCEPT ![r.k] = [st |-> "ok", v |-> clock + 1, w |-> w]]
      d2 == Evict(d1) IN
  /\ Go /\ (Over(d1) => res = {r} /\ wait = {})
  /\ Release(r, r.k, d2) /\ disk' = d2 /\ clock' = clock + 1
  /\ op' = [a |-> "publish", p |-> r.p, k |-> r.k, w |-> w, v |-> clock + 1, woken |-> Woken(r.k, d2)]
  /\ UNCHANGED init
(* A product of another identity is refused, and the reservation ends. *)
WrongPublish(r, k) ==
  /\ Go /\ k # r.k /\ Release(r, r.k, disk)
  /\ op' = [a |-> "wrongpublish", p |-> r.p, k |-> r.k, other |-> k, woken |-> Woken(r.k, disk)]
  /\ UNCHANGED <<disk, init, clock>>
Drop(r) ==
  /\ Go /\ Release(r, r.k, disk) /\ op' = [a |-> "drop", p |-> r.p, k |-> r.k, woken |-> Woken(r.k, disk)]
  /\ UNCHANGED <<disk, init, clock>>
(* The publisher dies somewhere inside publication: all or nothing. *)
Crash(r) ==
  /\ Go /\ Crashes /\ res = {r} /\ wait = {}
  /\ \E d \in {disk, [disk EXCEPT ![r.k] = [st |-> "ok", v |-> clock + 1, w |-> 1]]} : ~Over(d) /\ disk' = d
  /\ res' = {} /\ clock' = clock + 1 /\ init' = [init EXCEPT ![r.p] = FALSE]
  /\ op' = [a |-> "crash", p |-> r.p, k |-> r.k] /\ UNCHANGED wait
Damage(k, how) ==
  /\ Go /\ disk[k].st = "ok" /\ disk' = [disk EXCEPT ![k].st = "bad"]
  /\ op' = [a |-> "damage", k |-> k, how |-> how] /\ UNCHANGED <<res, init, wait, clock>>
(* Another product's file put in this one's place. *)
Swap(k, j) ==
  /\ Go /\ k # j /\ disk[k].st = "ok" /\ disk[j].st = "ok" /\ disk[k].w = disk[j].w /\ disk' = [disk EXCEPT ![k] = [st |-> "bad", v |-> disk[k].v, w |-> disk[k].w]]
  /\ op' = [a |-> "swap", k |-> k, other |-> j] /\ UNCHANGED <<res, init, wait, clock>>
Invalidate(p, k) ==
  /\ Go /\ Quiet /\ op' = [a |-> "invalidate", p |-> p, k |-> k, res |-> disk[k].st # None]
  /\ disk' = [disk EXCEPT ![k] = Absent] /\ init' = [init EXCEPT ![p] = IF disk[k].st # None THEN FALSE ELSE @]
  /\ UNCHANGED <<res, wait, clock>>
Clear(p) ==
  /\ Go /\ Quiet /\ op' = [a |-> "clear", p |-> p, res |-> Cardinality(Used(disk))]
  /\ disk' = [k \in Keys |-> Absent] /\ init' = [init EXCEPT ![p] = TRUE] /\ UNCHANGED <<res, wait, clock>>
Restart(p) ==
  /\ Go /\ init[p] /\ ~\E w \in wait : w.p = p
  /\ \A r \in res : r.p = p => ~Waited(r.k)
  /\ init' = [init EXCEPT ![p] = FALSE] /\ res' = {r \in res : r.p # p}
  /\ op' = [a |-> "restart", p |-> p] /\ UNCHANGED <<disk, wait, clock>>

Next == \/ \E p \in Procs : Clear(p) \/ Restart(p) \/ \E k \in Keys : Lookup(p, k) \/ Invalidate(p, k)
        \/ \E r \in res : Drop(r) \/ Crash(r) \/ (\E w \in Weights : Publish(r, w)) \/ (\E kk \in Keys : WrongPublish(r, kk))
        \/ \E k1 \in Keys : (\E how \in Damages : Damage(k1, how)) \/ \E j \in Keys : Damages # {} /\ Swap(k1, j)
Obs == [entries |-> Cardinality(Used(disk)), held |-> Cardinality(res)]

OneOwner == \A r, q \in res : r.k = q.k => r = q
NotStored == \A r \in res : disk[r.k].st # "ok"
Limits == ~Over(disk)
NoStuckWaiter == \A w \in wait : Held(w.k)
EmitT == PrintT("@@" \o ToJson([f |-> View, o |-> op', x |-> Obs', t |-> View']))
=============================================================================
