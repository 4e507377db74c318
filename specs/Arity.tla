------------------------------- MODULE Arity -------------------------------
(* Which argument lists a method takes.

   A method has required, optional and trailing required positional parameters
   and perhaps a rest parameter; required and optional keywords and perhaps a
   rest of keywords, or it forwards everything (...). A call passes some
   positional arguments, perhaps a splat standing for any number more of them,
   some keywords, and perhaps a double splat standing for any further keywords.

   As in Ruby 3: keywords passed to a method without keyword parameters are
   gathered in one hash, a further positional argument; otherwise each of them
   must be declared (or there is a rest of keywords) and each required one must
   be passed. A call is wrong if whatever the splats stand for Ruby refuses it. *)
EXTENDS Naturals, FiniteSets, Sequences, TLC, Json

CONSTANTS MaxPos, MaxReq, MaxOpt, MaxPost, Kws
VARIABLES m, c
vars == <<m, c>>

Methods == [req : 0..MaxReq, opt : 0..MaxOpt, rest : BOOLEAN, post : 0..MaxPost,
            kreq : SUBSET Kws, kopt : SUBSET Kws, krest : BOOLEAN]
Valid(x) == x.kreq \cap x.kopt = {}
Calls == [pos : 0..MaxPos, splat : BOOLEAN, kws : SUBSET (Kws \cup {"z"}), ksplat : BOOLEAN]

Min(x) == x.req + x.post
TakesKeywords(x) == x.krest \/ x.kreq # {} \/ x.kopt # {}
\* n positional arguments and the keywords K, nothing left open
Count(x, n, K) == IF TakesKeywords(x) \/ K = {} THEN n ELSE n + 1
Wrong(x, n, K) == LET k == Count(x, n, K) IN k < Min(x) \/ (~x.rest /\ k > Min(x) + x.opt)
Missing(x, K) == x.kreq \ K
Unknown(x, K) == IF TakesKeywords(x) /\ ~x.krest THEN K \ (x.kreq \cup x.kopt) ELSE {}
Refused(x, n, K) == Wrong(x, n, K) \/ Missing(x, K) # {} \/ Unknown(x, K) # {}

\* What the splats can stand for: enough to reach past every limit of the model.
Pos(d) == IF d.splat THEN d.pos..(d.pos + MaxReq + MaxOpt + MaxPost + 1) ELSE {d.pos}
Keys(d) == IF d.ksplat THEN {d.kws \cup K : K \in SUBSET Kws} ELSE {d.kws}
Hopeless(x, d) == \A n \in Pos(d), K \in Keys(d) : Refused(x, n, K)
Settled(d) == ~d.splat /\ ~d.ksplat

Init == m \in {x \in Methods : Valid(x)} /\ c \in Calls
Next == UNCHANGED vars

\* A call without splats is either taken or has a reason.
Reasons == Settled(c) => (Hopeless(m, c) <=> Wrong(m, c.pos, c.kws) \/ Missing(m, c.kws) # {} \/ Unknown(m, c.kws) # {})
\* A splat never makes a call wrong that is right without it.
SplatHelps == Hopeless(m, c) => Refused(m, c.pos, c.kws)
\* What takes the rest takes any number above the minimum.
RestTakesAll == m.rest /\ m.krest /\ m.kreq = {} /\ c.pos >= Min(m) => ~Hopeless(m, c)

Emit == PrintT("@@" \o ToJson([m |-> m, c |-> c, settled |-> Settled(c), hopeless |-> Hopeless(m, c),
          wrong |-> Wrong(m, c.pos, c.kws), missing |-> Missing(m, c.kws), unknown |-> Unknown(m, c.kws), got |-> Count(m, c.pos, c.kws),
          low |-> Min(m), high |-> IF m.rest THEN 99 ELSE Min(m) + m.opt]))
=============================================================================
