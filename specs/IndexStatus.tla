----------------------------- MODULE IndexStatus -----------------------------
(* Life cycle of a project's indexing generations as shown to the user. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxGen, MaxSeq, Phases, Progress

(* phase ranks: 0 discovered, 1 queued, 2.. working phases, 11 ready, 12 failed, 13 cancelled *)
VARIABLES gen, seq, phase, prog, navReady, depReady, failed, tok, op
vars == <<gen, seq, phase, prog, navReady, depReady, failed, tok, op>>
View == <<gen, seq, phase, prog, navReady, depReady, failed, tok>>
NoProg == <<-1, -1>>
Terminal == phase >= 11
Init == /\ gen = 0 /\ seq = 0 /\ phase = 0 /\ prog = NoProg /\ navReady = FALSE /\ depReady = FALSE
        /\ failed = FALSE /\ tok = <<>> /\ op = [a |-> "init"]

Begin ==
  /\ gen < MaxGen /\ seq < MaxSeq
  /\ gen' = gen + 1 /\ seq' = seq + 1 /\ phase' = 1 /\ prog' = NoProg
  /\ navReady' = FALSE /\ depReady' = FALSE /\ failed' = FALSE
  /\ tok' = Append([g \in 1..gen |-> IF g = gen THEN TRUE ELSE tok[g]], FALSE)   \* TRUE: cancelled
  /\ op' = [a |-> "begin", res |-> "ok"]

BadProg(p) == p[1] > p[2]
Step(g, ph, p) ==
  LET o == [a |-> "step", g |-> g, ph |-> ph, p |-> p] IN
  IF BadProg(p) THEN op' = o @@ [res |-> "refused"] /\ UNCHANGED View
  ELSE IF g # gen \/ Terminal THEN op' = o @@ [res |-> "refused"] /\ UNCHANGED View
  ELSE IF ph < phase \/ (ph = phase /\ p # NoProg /\ prog # NoProg /\ (p[1] < prog[1] \/ p[2] # prog[2]))
  THEN op' = o @@ [res |-> "refused"] /\ UNCHANGED View
  ELSE /\ seq' = seq + 1 /\ phase' = ph /\ prog' = p
       /\ navReady' = (navReady \/ ph = 6) /\ depReady' = (depReady \/ ph = 9) /\ failed' = FALSE
       /\ op' = o @@ [res |-> "ok"] /\ UNCHANGED <<gen, tok>>
Fail(g) ==
  LET o == [a |-> "fail", g |-> g] IN
  IF g # gen \/ Terminal THEN op' = o @@ [res |-> "refused"] /\ UNCHANGED View
  ELSE /\ seq' = seq + 1 /\ phase' = 12 /\ prog' = NoProg /\ failed' = TRUE
       /\ op' = o @@ [res |-> "ok"] /\ UNCHANGED <<gen, navReady, depReady, tok>>
Cancel(g, how) ==
  LET o == [a |-> "cancel", g |-> g, how |-> how] IN
  IF g # gen \/ Terminal THEN op' = o @@ [res |-> "refused"] /\ UNCHANGED View
  ELSE /\ seq' = seq + 1 /\ phase' = 13 /\ prog' = NoProg /\ failed' = FALSE
       /\ tok' = [x \in DOMAIN tok |-> IF x = g THEN TRUE ELSE tok[x]]
       /\ op' = o @@ [res |-> "ok"] /\ UNCHANGED <<gen, navReady, depReady>>

Next == \/ Begin
        \/ seq < MaxSeq /\ (\/ \E g \in 0..gen, ph \in Phases, p \in Progress : Step(g, ph, p)
                            \/ \E g \in 0..gen : Fail(g) \/ Cancel(g, "exact")
                            \/ Cancel(gen, "current"))
Current == [g \in 1..gen |-> g = gen /\ ~Terminal /\ ~tok[g]]
Obs == [gen |-> gen, seq |-> seq, phase |-> phase, prog |-> prog, nav |-> navReady, dep |-> depReady,
        failed |-> failed, cancelled |-> tok, current |-> Current]

Monotone == [][seq' >= seq /\ gen' >= gen /\ (gen' = gen => phase' >= phase)
               /\ (op'.res = "refused" => UNCHANGED View) /\ (op'.res = "ok" => seq' = seq + 1)]_vars
OneCurrent == Cardinality({g \in 1..gen : Current[g]}) <= 1 /\ \A g \in 1..gen : g < gen => tok[g]
EmitT == PrintT("@@" \o ToJson([f |-> View, o |-> op', x |-> Obs', t |-> View']))
=============================================================================
