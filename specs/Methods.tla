------------------------------ MODULE Methods ------------------------------
(* Which method a call runs.

   A program has modules M and N, a class A and a class B that may inherit from
   A. Classes and N mix modules in (include, prepend), in some order; classes
   may extend themselves with modules. Some of them define the method m, of
   some visibility, for their instances or for themselves.

   The ancestors of a class are those of Ruby: each mixed-in module comes with
   its own ancestors; an included one goes directly behind the class and is
   left out where the class or a superclass already has it; a prepended one
   goes in front. A call runs the first m among the ancestors; if that one may
   not be called from there, the call is an error, whatever comes behind it. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Profile   \* which family of programs
VARIABLES p
Owners == {"A", "B", "M", "N"}

Index(s, x) == IF \E i \in DOMAIN s : s[i] = x THEN CHOOSE i \in DOMAIN s : s[i] = x /\ \A j \in 1..(i - 1) : s[j] # x ELSE 0
InsertAt(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))

\* ch: the ancestors of X up to its superclass, own: the position of X in it;
\* c: the position behind which the next module goes.
RECURSIVE Incl(_, _, _, _), Prep(_, _, _), Mixed(_, _, _, _, _)
Incl(ch, c, sup, xs) ==
  IF xs = <<>> THEN ch ELSE
  LET x == Head(xs)  i == Index(ch, x) IN
  IF i # 0 THEN Incl(ch, IF i >= c THEN i ELSE c, sup, Tail(xs))
  ELSE IF Index(sup, x) # 0 THEN Incl(ch, c, sup, Tail(xs))
  ELSE Incl(InsertAt(ch, c + 1, x), c + 1, sup, Tail(xs))
\* pre: what is in front of X
Prep(pre, c, xs) ==
  IF xs = <<>> THEN pre ELSE
  LET x == Head(xs)  i == Index(pre, x) IN
  IF i # 0 THEN Prep(pre, IF i >= c THEN i ELSE c, Tail(xs))
  ELSE Prep(InsertAt(pre, c + 1, x), c + 1, Tail(xs))
\* X's ancestors, sup: those of its superclass; mod: ancestors of each module
Mixed(ch, X, sup, mod, mix) ==
  IF mix = <<>> THEN ch \o sup ELSE
  LET h == Head(mix)  own == Index(ch, X) IN
  Mixed(IF h[1] = "include" THEN Incl(ch, own, sup, mod[h[2]])
        ELSE Prep(SubSeq(ch, 1, own - 1), 0, mod[h[2]]) \o SubSeq(ch, own, Len(ch)),
        X, sup, mod, Tail(mix))

ModOf(q) == LET m == [M |-> <<"M">>] IN [M |-> <<"M">>, N |-> Mixed(<<"N">>, "N", <<>>, m, q.mixN)]
MroA(q) == Mixed(<<"A">>, "A", <<>>, ModOf(q), q.mixA)
MroB(q) == Mixed(<<"B">>, "B", IF q.sup THEN MroA(q) ELSE <<>>, ModOf(q), q.mixB)
Mro(q, X) == CASE X = "A" -> MroA(q) [] X = "B" -> MroB(q) [] OTHER -> ModOf(q)[X]
\* What a class itself answers to: its own methods ("s" of A), what it is
\* extended with, then the same of its superclass.
SMroA(q) == Mixed(<<"sA">>, "sA", <<>>, ModOf(q), [i \in DOMAIN q.extA |-> <<"include", q.extA[i]>>])
SMroB(q) == Mixed(<<"sB">>, "sB", IF q.sup THEN SMroA(q) ELSE <<>>, ModOf(q), [i \in DOMAIN q.extB |-> <<"include", q.extB[i]>>])
SMro(q, X) == IF X = "A" THEN SMroA(q) ELSE SMroB(q)

Once(s) == \A i, j \in DOMAIN s : s[i] = s[j] => i = j
\* What o says about m last: of its own definition, or (private :m) of an
\* inherited one, which it then passes on under another visibility.
Body(q, o) == CASE o = "sA" -> <<q.sdef["A"]>> [] o = "sB" -> <<q.sdef["B"]>>
                [] o \in {"A", "B"} -> (IF q.def[o] = "-" THEN <<>> ELSE q.pre[o] \o <<q.def[o]>>) \o q.post[o]
                [] OTHER -> <<q.def[o]>>
Own(q, o) == CASE o = "sA" -> q.sdef["A"] [] o = "sB" -> q.sdef["B"] [] OTHER -> q.def[o]
Vis(q, o) == LET b == Body(q, o) IN IF b = <<>> THEN "-" ELSE b[Len(b)]
Nearest(chain, Is(_)) == LET S == {i \in DOMAIN chain : Is(chain[i])} IN
                         IF S = {} THEN "-" ELSE chain[CHOOSE i \in S : \A j \in S : i <= j]
First(q, chain) == Nearest(chain, LAMBDA o : Own(q, o) # "-")
Entry(q, chain) == Nearest(chain, LAMBDA o : Vis(q, o) # "-")
After(chain, X) == SubSeq(chain, Index(chain, X) + 1, Len(chain))
\* Called as `receiver.m` from where self has the ancestors `from`.
Explicit(q, chain, from) ==
  LET o == Entry(q, chain) IN
  IF o = "-" THEN "-" ELSE
  CASE Vis(q, o) = "public" -> First(q, chain)
    [] Vis(q, o) = "private" -> "-"
    [] OTHER -> IF Index(from, o) # 0 THEN First(q, chain) ELSE "-"

Calls(q) ==
  [X \in {"A", "B"} |->
    [ new |-> Explicit(q, Mro(q, X), <<>>),          \* X.new.m at top level
      cls |-> Explicit(q, SMro(q, X), <<>>),         \* X.m at top level
      bare |-> First(q, Mro(q, X)),                  \* m and self.m in an instance method of X
      sbare |-> First(q, SMro(q, X)),                \* m in a singleton method of X
      fromA |-> Explicit(q, Mro(q, X), Mro(q, "A")), \* X.new.m in an instance method of A
      \* super in X's own m; left open where an ancestor occurs twice
      sup |-> IF Once(Mro(q, X)) THEN First(q, After(Mro(q, X), X)) ELSE "?",
      none |-> First(q, Mro(q, X)) = "-" ]]          \* nobody has an m for instances of X

One == {<<<<h, m>>>> : h \in {"include", "prepend"}, m \in {"M", "N"}}
Mixes == {<<>>} \cup One \cup {x \o y : x \in One, y \in One}
Distinct(s) == Len(s) < 2 \/ s[1][2] # s[2][2]
MixN == {<<>>, <<<<"include", "M">>>>, <<<<"prepend", "M">>>>}
Exts == {<<>>, <<"M">>, <<"N">>, <<"M", "N">>, <<"N", "M">>}
Pub == {"-", "public"}
NoOv == [{"A", "B"} -> {<<>>}]
Ov1 == {<<>>, <<"public">>, <<"private">>}
Ov2 == Ov1 \cup {<<x, y>> : x, y \in {"public", "private"}}
\* private :m needs an m to be about
Defined(q) == \A X \in {"A", "B"} :
  (q.pre[X] # <<>> \/ (q.def[X] = "-" /\ q.post[X] # <<>>)) => First(q, After(Mro(q, X), X)) # "-"
Init ==
  CASE Profile = "mix" ->
         p \in [mixA : {x \in Mixes : Distinct(x)}, mixB : {x \in Mixes : Distinct(x)}, mixN : MixN, sup : BOOLEAN,
                extA : {<<>>}, extB : {<<>>}, def : [Owners -> Pub], sdef : [{"A", "B"} -> {"-"}], pre : NoOv, post : NoOv]
    [] Profile = "ext" ->
         /\ p \in [mixA : {<<>>}, mixB : {<<>>}, mixN : MixN, sup : BOOLEAN,
                   extA : Exts, extB : Exts, def : [Owners -> Pub], sdef : [{"A", "B"} -> Pub], pre : NoOv, post : NoOv]
         /\ p.def["A"] = "-" /\ p.def["B"] = "-"
    [] Profile = "vis" ->
         /\ p \in [mixA : {x \in Mixes : Len(x) < 2}, mixB : {x \in Mixes : Len(x) < 2}, mixN : {<<>>}, sup : {TRUE},
                   extA : {<<>>}, extB : {<<>>}, def : [Owners -> {"-", "public", "private", "protected"}], sdef : [{"A", "B"} -> {"-", "public", "private"}], pre : NoOv, post : NoOv]
         /\ p.def["N"] = "-" /\ \A x \in {p.mixA, p.mixB} : x = <<>> \/ x[1][2] = "M"
    [] Profile = "override" ->
         /\ p \in [mixA : {x \in Mixes : Len(x) < 2}, mixB : {x \in Mixes : Len(x) < 2}, mixN : {<<>>}, sup : {TRUE},
                   extA : {<<>>}, extB : {<<>>}, def : [Owners -> {"-", "public", "private"}], sdef : [{"A", "B"} -> {"-"}],
                   pre : [{"A", "B"} -> Ov1], post : [{"A", "B"} -> Ov2]]
         /\ p.def["N"] = "-" /\ p.def["M"] # "private" /\ \A x \in {p.mixA, p.mixB} : x = <<>> \/ x[1][2] = "M"
         /\ \A X \in {"A", "B"} : p.def[X] = "-" => p.pre[X] = <<>>
         /\ Defined(p)
Next == UNCHANGED p

\* An ancestor list contains the class, everything mixed in, and the superclass's list as its tail.
Complete == \A X \in {"A", "B"} :
  LET m == Mro(p, X)  mix == IF X = "A" THEN p.mixA ELSE p.mixB IN
  /\ Index(m, X) # 0
  /\ \A i \in DOMAIN mix : \A k \in DOMAIN ModOf(p)[mix[i][2]] : Index(m, ModOf(p)[mix[i][2]][k]) # 0
  /\ (X = "B" /\ p.sup) => \E k \in 0..Len(m) : SubSeq(m, k + 1, Len(m)) = MroA(p)
\* Without prepending nothing occurs twice.
NoDup == (\A i \in DOMAIN p.mixA : p.mixA[i][1] = "include") /\ (\A i \in DOMAIN p.mixB : p.mixB[i][1] = "include")
         => Once(MroA(p)) /\ Once(MroB(p))
Emit == PrintT("@@" \o ToJson([p |-> p, mroA |-> MroA(p), mroB |-> MroB(p), smroA |-> SMroA(p), smroB |-> SMroB(p), calls |-> Calls(p)]))
=============================================================================
