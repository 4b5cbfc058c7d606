------------------------------- MODULE Divide -------------------------------
(***************************************************************************)
(* Dividing a contour at the points it passes more than once.  The machine *)
(* walks the contour with a stack of points: coming back to a point on the *)
(* stack closes a loop.  Whatever the contour, the loops have its directed *)
(* edges, each as often as it has, and no loop passes a point twice.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

DividePts(c) == {c[i] : i \in 1..Len(c)}
NextOf(c, i) == c[IF i = Len(c) THEN 1 ELSE i + 1]
ContourEdges(c) == [i \in 1..Len(c) |-> <<c[i], NextOf(c, i)>>]
EdgesOfAll(cs) == FlattenSeq([i \in 1..Len(cs) |-> ContourEdges(cs[i])])
Times(s, e) == Cardinality({i \in 1..Len(s) : s[i] = e})
SameBag(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Times(s, s[i]) = Times(t, s[i])
Simple(c) == Cardinality(DividePts(c)) = Len(c)

\* a division of contour c; a point that follows itself is an edge, and a loop of its own
Divided(c, loops) == (\A i \in 1..Len(loops) : Len(loops[i]) > 0 /\ Simple(loops[i])) /\ SameBag(ContourEdges(c), EdgesOfAll(loops))
\* what a call returns: none if there is nothing to divide
DivideRight(c, none, loops) == IF Len(c) < 3 \/ Simple(c) THEN none ELSE ~none /\ Divided(c, loops)

-----------------------------------------------------------------------------
CONSTANTS Alphabet, MaxLen
VARIABLES c, at, stack, loops
vars == <<c, at, stack, loops>>

Words == UNION {[1..n -> Alphabet] : n \in 2..MaxLen}
Init == c \in Words /\ at = 1 /\ stack = <<>> /\ loops = <<>>
Step ==
  /\ at <= Len(c)
  /\ LET on == {i \in 1..Len(stack) : stack[i] = c[at]}
     IN  IF on = {} THEN stack' = Append(stack, c[at]) /\ UNCHANGED loops
         ELSE LET k == CHOOSE i \in on : TRUE
              IN  loops' = Append(loops, SubSeq(stack, k, Len(stack))) /\ stack' = SubSeq(stack, 1, k)
  /\ at' = at + 1 /\ UNCHANGED c
Close == at = Len(c) + 1 /\ loops' = Append(loops, stack) /\ stack' = <<>> /\ at' = at + 1 /\ UNCHANGED c
Next == Step \/ Close
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* walked so far: the closed loops, and the way from the bottom of the stack to its top
Walked == EdgesOfAll(loops) \o [i \in 1..(Len(stack) - 1) |-> <<stack[i], stack[i + 1]>>]
StackSimple == Simple(stack)
NothingLost == at <= Len(c) + 1 => SameBag(Walked, [i \in 1..(IF at = 1 THEN 0 ELSE at - 2) |-> <<c[i], c[i + 1]>>])
Result == at = Len(c) + 2 => Divided(c, loops) /\ (Len(c) > 2 => DivideRight(c, Len(loops) = 1, loops))
Ends == <>(at = Len(c) + 2)
=============================================================================
