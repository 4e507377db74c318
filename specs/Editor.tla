------------------------------- MODULE Editor -------------------------------
(* Which text of each file the answers are about.

   A file has a text on disk (or none) and, while it is open, a text in the
   editor. The editor's text is authoritative while the file is open, the
   text on disk otherwise; nothing else, and no earlier text, may show in an
   answer. A text is a number: what it declares and what it uses is Sem.

   Answers are a function of the authoritative texts alone (Declared,
   Unresolved, Uses below): two histories that lead to the same texts are
   indistinguishable. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Files, Texts, Batches, DirtyOpen
VARIABLES disk, buf, fresh, op
vars == <<disk, buf, fresh, op>>
View == <<disk, buf, fresh>>
\* fresh: every file's names have been resolved since some text changed. A
\* change in the editor resolves the changed file and refreshes the other open
\* ones; the rest of the project follows at the next save or change on disk,
\* and only then are references complete across files.

Names == {"P", "Q"}
Closed == 99
None == 0
\* What text t of any file declares and uses.
Sem == << [def |-> {"P"},      use |-> {"P", "Q"}],
          [def |-> {"Q"},      use |-> {"P"}],
          [def |-> {"P", "Q"}, use |-> {"Q"}],
          [def |-> {},         use |-> {"P", "Q"}] >>

Auth(d, b, f) == IF b[f] = Closed THEN d[f] ELSE b[f]
Now(f) == Auth(disk, buf, f)
Open == {f \in Files : buf[f] # Closed}
Declared(n) == {f \in Files : Now(f) # None /\ n \in Sem[Now(f)].def}
Uses(n) == {f \in Files : Now(f) # None /\ n \in Sem[Now(f)].use}
Unresolved(f) == {n \in Sem[Now(f)].use : Declared(n) = {}}

Obs == [fresh |-> fresh, open |-> Open, auth |-> [f \in Files |-> Now(f)], disk |-> disk,
        declared |-> [n \in Names |-> Declared(n)],
        uses |-> [n \in Names |-> Uses(n)],
        unresolved |-> [f \in Files |-> IF f \in Open THEN Unresolved(f) ELSE {}]]

Init == /\ disk \in [Files -> Texts \cup {None}] /\ buf = [f \in Files |-> Closed] /\ fresh = TRUE /\ op = [a |-> "start"]

OpenDisk(f) == /\ buf[f] = Closed /\ disk[f] # None
               /\ buf' = [buf EXCEPT ![f] = disk[f]] /\ UNCHANGED <<disk, fresh>>
               /\ op' = [a |-> "open", f |-> f, t |-> disk[f]]
\* An editor may restore unsaved text when it opens a file.
OpenOther(f, t) == /\ DirtyOpen /\ buf[f] = Closed /\ t # disk[f] /\ disk[f] # None
                   /\ buf' = [buf EXCEPT ![f] = t] /\ fresh' = FALSE /\ UNCHANGED disk
                   /\ op' = [a |-> "open", f |-> f, t |-> t]
Edit(f, t) == /\ f \in Open /\ t # buf[f] /\ buf' = [buf EXCEPT ![f] = t] /\ fresh' = FALSE /\ UNCHANGED disk
              /\ op' = [a |-> "change", f |-> f, t |-> t]
Save(f) == /\ f \in Open /\ disk' = [disk EXCEPT ![f] = buf[f]] /\ fresh' = TRUE /\ UNCHANGED buf
           /\ op' = [a |-> "save", f |-> f, t |-> buf[f]]
Close(f) == /\ f \in Open /\ buf' = [buf EXCEPT ![f] = Closed] /\ fresh' = (fresh \/ buf[f] # disk[f]) /\ UNCHANGED disk
            /\ op' = [a |-> "close", f |-> f]
\* Other programs write files; the watcher reports it, one or several at once.
External(ch) == /\ \A f \in DOMAIN ch : ch[f] # disk[f]
                /\ disk' = [f \in Files |-> IF f \in DOMAIN ch THEN ch[f] ELSE disk[f]] /\ UNCHANGED buf
                /\ fresh' = (fresh \/ DOMAIN ch \ Open # {})
                /\ op' = [a |-> "external", ch |-> ch]
Next == \/ \E f \in Files : OpenDisk(f) \/ Save(f) \/ Close(f) \/ \E t \in Texts : OpenOther(f, t) \/ Edit(f, t)
        \/ \E S \in SUBSET Files : S # {} /\ Cardinality(S) <= Batches /\ \E ch \in [S -> Texts \cup {None}] : External(ch)

TypeOK == disk \in [Files -> Texts \cup {None}] /\ buf \in [Files -> Texts \cup {Closed}]
\* An open file is untouched by what happens on disk.
OpenIsAuthoritative == \A f \in Open : Now(f) = buf[f]
ClosedIsDisk == \A f \in Files \ Open : Now(f) = disk[f]
\* A name is unresolved only while no authoritative text declares it.
NoFalseAlarm == \A f \in Open : \A n \in Unresolved(f) : \A g \in Files : Now(g) = None \/ n \notin Sem[Now(g)].def
OnlyItself == [][\A f \in Files : (op'.a \in {"open", "change", "save", "close"} /\ op'.f # f) => Auth(disk', buf', f) = Now(f)]_vars
EmitT == PrintT("@@" \o ToJson([f |-> View, o |-> op', x |-> Obs', t |-> View']))
=============================================================================
