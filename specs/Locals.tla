------------------------------- MODULE Locals -------------------------------
(* Which variable an occurrence of a lower-case name is.

   A program is a sequence of events: writes and reads of names, the opening
   of a scope (method, class body, block), possibly with parameters, and its
   closing. Methods and class bodies are closed to the variables around them;
   a block sees them, and a parameter of a block hides what it sees.

   A variable is its declaration: the parameter, or the first write where the
   name was not visible. A read of a name that is not visible is a method
   call, not a variable. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Names, MaxLen, MaxDepth, Kinds, MinReads
VARIABLES prog, stack, bind
vars == <<prog, stack, bind>>

Hard == {"def", "class"}
\* stack: innermost scope last; vis[n] = declaration (an occurrence) or 0.
\* bind: one declaration per occurrence, 0 where the occurrence is no variable.
Scope(k, v) == [kind |-> k, vis |-> v]
Nothing == [n \in Names |-> 0]
Top == stack[Len(stack)]
RECURSIVE Lookup(_, _)
Lookup(n, i) == IF stack[i].vis[n] # 0 THEN stack[i].vis[n]
                ELSE IF stack[i].kind \in Hard \/ i = 1 THEN 0
                ELSE Lookup(n, i - 1)
Visible(n) == Lookup(n, Len(stack))
Occ == Len(bind)

Init == prog = <<>> /\ stack = <<Scope("def", Nothing)>> /\ bind = <<>>

Write(n) ==
  LET d == Visible(n) IN
  /\ prog' = Append(prog, [e |-> "w", n |-> n])
  /\ IF d # 0 THEN stack' = stack /\ bind' = Append(bind, d)
     ELSE /\ stack' = [stack EXCEPT ![Len(stack)].vis[n] = Occ + 1]
          /\ bind' = Append(bind, Occ + 1)
Read(n) ==
  /\ prog' = Append(prog, [e |-> "r", n |-> n])
  /\ bind' = Append(bind, Visible(n)) /\ stack' = stack
Open(k, p) ==
  /\ Len(stack) <= MaxDepth
  /\ k = "class" => p = "-" /\ \A i \in DOMAIN stack : i = 1 \/ stack[i].kind = "class"
  /\ prog' = Append(prog, [e |-> k, n |-> p])
  /\ IF p = "-" THEN stack' = Append(stack, Scope(k, Nothing)) /\ bind' = bind
     ELSE /\ stack' = Append(stack, Scope(k, [Nothing EXCEPT ![p] = Occ + 1]))
          /\ bind' = Append(bind, Occ + 1)
Close ==
  /\ Len(stack) > 1 /\ prog[Len(prog)].e \notin Kinds
  /\ prog' = Append(prog, [e |-> "end", n |-> "-"])
  /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ bind' = bind
Next == /\ Len(prog) < MaxLen
        /\ \/ \E n \in Names : Write(n) \/ Read(n)
           \/ \E k \in Kinds, p \in Names \cup {"-"} : Open(k, p)
           \/ Close

\* Room is left to close what is open.
Feasible == Len(prog) + Len(stack) - 1 <= MaxLen

\* ------------------------------------------------------------- properties
Declares(d) == d \in 1..Occ /\ bind[d] = d
TypeOK == \A i \in 1..Occ : bind[i] = 0 \/ (bind[i] <= i /\ Declares(bind[i]))
\* No variable of the code around a method or class body is seen inside.
Closed == \A i \in DOMAIN stack : \A n \in Names :
             stack[i].kind \in Hard /\ stack[i].vis[n] = 0 =>
               (i = Len(stack) => Visible(n) = 0)
Partition == \A d \in 1..Occ : Declares(d) => d \in {i \in 1..Occ : bind[i] = d}

Reads == Cardinality({i \in DOMAIN prog : prog[i].e = "r"})
Complete == Len(stack) = 1 /\ Reads >= MinReads /\ prog[Len(prog)].e # "w"
Emit == Complete => PrintT("@@" \o ToJson([prog |-> prog, bind |-> bind]))
=============================================================================
