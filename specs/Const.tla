------------------------------- MODULE Const -------------------------------
(* Which declarations a constant reference denotes.

   A program is a sequence of blocks plus one observing block, the site. A
   block opens namespaces one inside the other and may declare one constant
   in the innermost. What is opened is written as a name, as a path A::B, or
   absolutely as ::A; so is a declared constant. The site holds every
   reference of interest.

   Rule: the first name of a relative reference is looked up in what the
   enclosing headers opened, innermost first, then at the top level; an
   absolute one at the top level only. The remaining names are looked up
   strictly in what the first one denotes. In particular module A::B opens
   A::B only: inside, A is no enclosing namespace. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Names, ValNames, NBlocks, MaxOpen, PathLen, RefLen, Sample, Emitting
VARIABLE prog

Prefix(p, k) == SubSeq(p, 1, k)
Words(n) == UNION {[1..k -> Names] : k \in 1..n}
\* Names a value may have, behind names of namespaces.
ValWords(n) == {p \o <<x>> : p \in {<<>>} \cup Words(n - 1), x \in ValNames}
Undef == <<"?">>
NoVal == [abs |-> FALSE, parts |-> <<>>]

\* What a header or an assignment names. A relative path of several names is
\* written at the top level only: elsewhere what it names depends on what its
\* first name denotes there.
Targets == [abs : BOOLEAN, parts : Words(PathLen)]
Headers == UNION {[1..n -> Targets] : n \in 0..MaxOpen}
OkAt(t, i) == Len(t.parts) = 1 \/ t.abs \/ i = 1
OkHeader(h) == \A i \in 1..Len(h) : OkAt(h[i], i) /\ (i = 1 => ~h[i].abs)
Vals == {NoVal} \cup [abs : BOOLEAN, parts : ValWords(PathLen)]
Blocks == {b \in [open : {h \in Headers : OkHeader(h)}, val : Vals] :
             /\ b.open # <<>> \/ b.val # NoVal
             /\ b.val # NoVal => OkAt(b.val, Len(b.open) + 1) /\ (b.open = <<>> => ~b.val.abs)}
Sites == {h \in Headers : OkHeader(h)}
Refs == [abs : BOOLEAN, parts : Words(RefLen) \cup ValWords(RefLen)]

\* ------------------------------------------------------------- declarations
\* The full name the i-th header of h opens.
RECURSIVE Opened(_, _)
Opened(h, i) == IF i = 0 THEN <<>> ELSE IF h[i].abs THEN h[i].parts ELSE Opened(h, i - 1) \o h[i].parts
ValName(b) == IF b.val.abs THEN b.val.parts ELSE Opened(b.open, Len(b.open)) \o b.val.parts

AllBlocks(P) == P.blocks \o <<[open |-> P.site, val |-> NoVal]>>
\* An occurrence: block b opening its k-th namespace, or (k = 0) its constant.
Occs(P) == UNION {{[b |-> i, k |-> k] : k \in 1..Len(AllBlocks(P)[i].open)}
                   \cup (IF AllBlocks(P)[i].val # NoVal THEN {[b |-> i, k |-> 0]} ELSE {}) : i \in 1..Len(AllBlocks(P))}
TargetOf(P, o) == IF o.k = 0 THEN AllBlocks(P)[o.b].val ELSE AllBlocks(P)[o.b].open[o.k]
FqnOf(P, o) == IF o.k = 0 THEN ValName(AllBlocks(P)[o.b]) ELSE Opened(AllBlocks(P)[o.b].open, o.k)
\* The names written in front of the last one are references.
Mentions(P) == {m \in [b : 1..Len(P.blocks) + 1, k : 0..MaxOpen, j : 1..PathLen] :
                  [b |-> m.b, k |-> m.k] \in Occs(P) /\ m.j < Len(TargetOf(P, [b |-> m.b, k |-> m.k]).parts)}
Mentioned(P, m) == Prefix(TargetOf(P, [b |-> m.b, k |-> m.k]).parts, m.j)

Decls(P) == {[f |-> FqnOf(P, o), ns |-> o.k > 0] : o \in Occs(P)}
WellFormed(P) ==
  LET D == Decls(P)
      named == {d.f : d \in {x \in D : x.ns}} IN
  /\ \A d \in D : d.ns \/ d.f \notin named          \* not both a namespace and a value
  /\ \A m \in Mentions(P) : Mentioned(P, m) \in named
  \* an absolute header names something at the top level or in something known
  /\ \A o \in Occs(P) : LET f == FqnOf(P, o) IN Len(f) > 1 => Prefix(f, Len(f) - 1) \in named

\* --------------------------------------------------------------- resolution
\* D is the set of declared full names, N those of namespaces, S the scopes.
First(D, S, r) ==
  LET hits == {s \in S : (s \o <<r.parts[1]>>) \in D}
  IN IF hits = {} THEN Undef ELSE LET s == CHOOSE x \in hits : \A y \in hits : Len(y) <= Len(x) IN s \o <<r.parts[1]>>
RECURSIVE Rest(_, _, _, _)
Rest(D, N, f, q) == IF q = <<>> THEN f
                    ELSE IF f \in N /\ (f \o <<Head(q)>>) \in D THEN Rest(D, N, f \o <<Head(q)>>, Tail(q)) ELSE Undef

\* Innermost first. Scopes of the program text are not nested in one another in
\* general (module A; module ::B), so they are searched as a sequence.
RECURSIVE FirstIn(_, _, _)
FirstIn(D, q, r) == IF q = <<>> THEN Undef
                    ELSE IF (q[Len(q)] \o <<r.parts[1]>>) \in D THEN q[Len(q)] \o <<r.parts[1]>>
                    ELSE FirstIn(D, SubSeq(q, 1, Len(q) - 1), r)
ScopesOf(h) == <<<<>>>> \o [i \in 1..Len(h) |-> Opened(h, i)]

\* What the whole program declares, computed once.
Known(P) == [d |-> {FqnOf(P, o) : o \in Occs(P)}, n |-> {FqnOf(P, o) : o \in {x \in Occs(P) : x.k > 0}}]
ResolveIn(K, q, r) == LET f == FirstIn(K.d, IF r.abs THEN <<<<>>>> ELSE q, r) IN IF f = Undef THEN Undef ELSE Rest(K.d, K.n, f, Tail(r.parts))
Resolve(P, r) == ResolveIn(Known(P), ScopesOf(P.site), r)

\* The scopes as if every prefix of the innermost name were one (known finding
\* F26: the server takes module A::B for module A; module B).
PrefixScopes(h) == LET f == Opened(h, Len(h)) IN [i \in 1..Len(f) + 1 |-> Prefix(f, i - 1)]
\* No enclosing scope completes the whole path either: surely unresolved.
Nowhere(K, q, r) == \A i \in 1..Len(q) : (q[i] \o r.parts) \notin K.d

\* ------------------------------------------------------------------- answers
Status(K, P, r) ==
  LET f == ResolveIn(K, ScopesOf(P.site), r) IN
  IF f # ResolveIn(K, PrefixScopes(P.site), r) THEN "unknown"
  ELSE IF f # Undef THEN "found"
  ELSE IF Nowhere(K, IF r.abs THEN <<<<>>>> ELSE PrefixScopes(P.site), r) THEN "none" ELSE "unknown"
Answer(P) ==
  LET K == Known(P) IN
  [blocks |-> P.blocks, site |-> P.site,
   refs |-> {[abs |-> r.abs, parts |-> r.parts, status |-> Status(K, P, r), fqn |-> ResolveIn(K, ScopesOf(P.site), r)] : r \in Refs},
   occs |-> {[b |-> o.b, k |-> o.k, fqn |-> FqnOf(P, o)] : o \in Occs(P)}]

\* ---------------------------------------------------------------- invariants
ResolvedIsDefined == LET K == Known(prog) IN \A r \in Refs : Resolve(prog, r) = Undef \/ Resolve(prog, r) \in K.d
\* What encloses a reference never changes an absolute one.
AbsoluteIsTop == LET K == Known(prog) IN \A r \in Refs : r.abs => Resolve(prog, r) = ResolveIn(K, <<<<>>>>, [r EXCEPT !.abs = FALSE])
\* Inside headers that each give one relative name, prefixes and scopes agree.
PlainNesting == (\A i \in 1..Len(prog.site) : ~prog.site[i].abs /\ Len(prog.site[i].parts) = 1) => ScopesOf(prog.site) = PrefixScopes(prog.site)
\* A declaration in an inner scope hides; one more scope inside never exposes another outer one.
Hiding == LET K == Known(prog) IN \A r \in Refs : ~r.abs =>
            \A n \in 1..Len(prog.site) : LET q == SubSeq(ScopesOf(prog.site), 1, n) IN
              (ScopesOf(prog.site)[Len(prog.site) + 1] \o <<r.parts[1]>>) \notin K.d /\ n = Len(prog.site)
                => FirstIn(K.d, ScopesOf(prog.site), r) = FirstIn(K.d, q, r)
Emit == Emitting => PrintT("@@" \o ToJson(Answer(prog)))

\* A random part of the programs. What a program presupposes (the A of a
\* declared A::B) and does not declare is declared by further blocks.
Plain(f) == [open |-> [i \in 1..Len(f) |-> [abs |-> FALSE, parts |-> <<f[i]>>]], val |-> NoVal]
Presupposed(P) == UNION {{Prefix(FqnOf(P, o), k) : k \in 1..Len(FqnOf(P, o)) - 1} : o \in Occs(P)}
Filled(P) == LET missing == Presupposed(P) \ {FqnOf(P, o) : o \in {x \in Occs(P) : x.k > 0}}
                 most == {f \in missing : \A g \in missing : Len(g) > Len(f) => Prefix(g, Len(f)) # f}
             IN [P EXCEPT !.blocks = P.blocks \o SetToSeq({Plain(f) : f \in most})]
Bare == {b \in Blocks : b.val = NoVal}
Drawn(n) == [blocks |-> [i \in 1..NBlocks |-> IF RandomElement(1..2) = 1 THEN RandomElement(Bare) ELSE RandomElement(Blocks)], site |-> RandomElement(Sites), n |-> n]
Init == prog \in {P \in {Filled(Drawn(n)) : n \in 1..Sample} : WellFormed(P)}
Next == UNCHANGED prog
=============================================================================
