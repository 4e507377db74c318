------------------------------ MODULE Projects ------------------------------
(* Whose a file is, and what a project sees.

   Workspace folders hold projects: a folder with a Gemfile is one project;
   without one, the nearest directories below it that have a Gemfile are
   projects, each of its own; a folder with no Gemfile at all is one project.
   A file belongs to the innermost project around it, or to none. Files below
   an external directory of their project (vendor, tmp, ...) are looked at only
   while they are open, and so are files of no project; those see each other
   and no project.

   Names resolve among the files of the same project alone. External files and
   files of no project are not in the workspace symbols and get no project
   diagnostics. Folders may come and go; open files change hands at once.     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, Randomization

CONSTANTS Files, Texts, Starts, FolderSets, FolderOps, Gems, Policies
VARIABLES folders, gem, pol, disk, buf, stale, op
vars == <<folders, gem, pol, disk, buf, stale, op>>

Names == {"P", "Q"}
Closed == 99
None == 0
Sem == << [def |-> {"P"},      use |-> {"P", "Q"}],
          [def |-> {"Q"},      use |-> {"P"}],
          [def |-> {"P", "Q"}, use |-> {"Q"}],
          [def |-> {},         use |-> {"P", "Q"}] >>

SomePolicies == {[inc |-> i, exc |-> e] : i \in {{}, {"c"}, {"d", "g"}}, e \in {{}, {"b"}, {"a", "c", "f"}}}
\* Directories: w and v are folders, s is inside w and may be one too, t inside s
\* and y may have a Gemfile; x is the name of external directories; o is outside.
Dir == [w |-> <<"w">>, s |-> <<"w", "s">>, v |-> <<"v">>, t |-> <<"w", "s", "t">>, y |-> <<"w", "x">>]
Path == [a |-> <<"w">>, b |-> <<"w", "s">>, c |-> <<"w", "x">>, d |-> <<"w", "s", "x">>, e |-> <<"v">>, f |-> <<"o">>,
         g |-> <<"w", "s", "t">>, h |-> <<"v", "t">>]
Under(q, r) == Len(q) >= Len(r) /\ SubSeq(q, 1, Len(r)) = r
\* The projects of folder F, by the directories that have a Gemfile.
Below(F, gs) == {g \in gs : g # F /\ Under(Dir[g], Dir[F]) /\ ~\E i \in (Len(Dir[F]) + 1)..Len(Dir[g]) : Dir[g][i] = "x"}
Projects(F, gs) == IF F \in gs \/ Below(F, gs) = {} THEN {F}
                   ELSE {g \in Below(F, gs) : ~\E h \in Below(F, gs) : h # g /\ Under(Dir[g], Dir[h])}
RootsOf(fs, gs) == UNION {Projects(F, gs) : F \in fs}
OwnerIn(fs, gs, f) ==
  LET R == {r \in RootsOf(fs, gs) : Under(Path[f], Dir[r])} IN
  IF R = {} THEN "none" ELSE CHOOSE r \in R : \A q \in R : Len(Dir[q]) <= Len(Dir[r])
\* Of a state z = [folders, gem, pol, disk, buf, stale]; the settings pol say
\* which files are included even so, and which are not at all.
OwnerOf(z, f) == OwnerIn(z.folders, z.gem, f)
ExternalOf(z, f) == LET o == OwnerOf(z, f) IN o # "none"
  /\ (f \in z.pol.exc \/ (f \notin z.pol.inc /\ \E i \in (Len(Dir[o]) + 1)..Len(Path[f]) : Path[f][i] = "x"))
OwnedOf(z, f) == OwnerOf(z, f) # "none" /\ ~ExternalOf(z, f)
OpenOf(z) == {f \in Files : z.buf[f] # Closed}
NowOf(z, f) == IF f \in OpenOf(z) THEN z.buf[f] ELSE IF OwnedOf(z, f) THEN z.disk[f] ELSE None
DeclaresOf(z, f, n) == NowOf(z, f) # None /\ n \in Sem[NowOf(z, f)].def
SeesOf(z, f) == {g \in Files : OwnerOf(z, g) = OwnerOf(z, f)}
DeclaredOf(z, f, n) == {g \in SeesOf(z, f) : DeclaresOf(z, g, n)}
UsesOf(z, f, n) == {g \in SeesOf(z, f) : NowOf(z, g) # None /\ n \in Sem[NowOf(z, g)].use}
UnresolvedOf(z, f) == IF f \in OpenOf(z) /\ OwnedOf(z, f) THEN {n \in Sem[NowOf(z, f)].use : DeclaredOf(z, f, n) = {}} ELSE {}
ObsOf(z) ==
       [open |-> OpenOf(z), roots |-> RootsOf(z.folders, z.gem),
        now |-> [f \in Files |-> NowOf(z, f)], disk |-> z.disk, owner |-> [f \in Files |-> OwnerOf(z, f)],
        owned |-> [f \in Files |-> OwnedOf(z, f)], fresh |-> {f \in Files : OwnerOf(z, f) \notin z.stale},
        declared |-> [f \in Files |-> [n \in Names |-> IF f \in OpenOf(z) THEN DeclaredOf(z, f, n) ELSE {}]],
        uses |-> [f \in Files |-> [n \in Names |-> IF f \in OpenOf(z) THEN UsesOf(z, f, n) ELSE {}]],
        symbols |-> [n \in Names |-> {f \in Files : OwnedOf(z, f) /\ DeclaresOf(z, f, n)}],
        unresolved |-> [f \in Files |-> UnresolvedOf(z, f)]]
Z == [folders |-> folders, gem |-> gem, pol |-> pol, disk |-> disk, buf |-> buf, stale |-> stale]
Owner(f) == OwnerOf(Z, f)
Owned(f) == OwnedOf(Z, f)
Open == OpenOf(Z)
Now(f) == NowOf(Z, f)
Declared(f, n) == DeclaredOf(Z, f, n)
Unresolved(f) == UnresolvedOf(Z, f)

Init == /\ folders \in FolderSets /\ gem \in SUBSET Gems /\ pol \in RandomSubset(2, Policies)
        /\ disk \in RandomSubset(Starts, [Files -> Texts \cup {None}]) /\ buf = [f \in Files |-> Closed]
        /\ stale = {} /\ op = [a |-> "start"]

OpenDisk(f) == /\ buf[f] = Closed /\ disk[f] # None /\ buf' = [buf EXCEPT ![f] = disk[f]]
               /\ stale' = IF Owned(f) THEN stale ELSE stale \cup {Owner(f)}
               /\ op' = [a |-> "open", f |-> f, t |-> disk[f]] /\ UNCHANGED <<folders, gem, pol, disk>>
Edit(f, t) == /\ f \in Open /\ t # buf[f] /\ buf' = [buf EXCEPT ![f] = t] /\ stale' = stale \cup {Owner(f)}
              /\ op' = [a |-> "change", f |-> f, t |-> t] /\ UNCHANGED <<folders, gem, pol, disk>>
Save(f) == /\ f \in Open /\ disk' = [disk EXCEPT ![f] = buf[f]] /\ stale' = stale \ {Owner(f)}
           /\ op' = [a |-> "save", f |-> f, t |-> buf[f]] /\ UNCHANGED <<folders, gem, pol, buf>>
Close(f) == /\ f \in Open /\ buf' = [buf EXCEPT ![f] = Closed]
            /\ stale' = IF Owned(f) /\ buf[f] # disk[f] THEN stale \ {Owner(f)} ELSE IF Owned(f) THEN stale ELSE stale \cup {Owner(f)}
            /\ op' = [a |-> "close", f |-> f] /\ UNCHANGED <<folders, gem, pol, disk>>
Write(f, t) == /\ t # disk[f] /\ disk' = [disk EXCEPT ![f] = t]
               /\ stale' = IF Owned(f) /\ f \notin Open THEN stale \ {Owner(f)} ELSE stale
               /\ op' = [a |-> "external", ch |-> [x \in {f} |-> t]] /\ UNCHANGED <<folders, gem, pol, buf>>
Refolder(fs) == /\ FolderOps /\ fs # folders /\ folders' = fs
                /\ stale' = {OwnerIn(fs, gem, f) : f \in Files}
                /\ op' = [a |-> "folders", add |-> fs \ folders, rm |-> folders \ fs] /\ UNCHANGED <<gem, pol, disk, buf>>
Next == \/ \E f \in Files : OpenDisk(f) \/ Save(f) \/ Close(f) \/ \E t \in Texts : Edit(f, t) \/ Write(f, t)
        \/ \E f \in Files : Write(f, None)
        \/ \E fs \in FolderSets : Refolder(fs)

\* What happens in one project is invisible in every other.
Isolated == [][(op'.a \in {"open", "change", "save", "close"} /\ UNCHANGED folders)
               => \A f \in Open : Owner(f) # Owner(op'.f) => \A n \in Names : Declared(f, n)' = Declared(f, n)]_vars
\* Nothing outside of the projects' own files is a workspace symbol or is reported.
OnlyOwned == \A f \in Files : ~Owned(f) => Unresolved(f) = {}
\* A file has one owner, and that is a directory around it.
OneOwner == \A f \in Files : Owner(f) # "none" => Under(Path[f], Dir[Owner(f)])
\* A closed file of no project, or an external one, is nowhere.
Gone == \A f \in Files \ Open : ~Owned(f) => Now(f) = None
=============================================================================
