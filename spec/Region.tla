------------------------------- MODULE Region -------------------------------
(***************************************************************************)
(* The region a call has to return, point by point, for any contours at    *)
(* all: their crossings need not be representable.  Winding numbers at a   *)
(* point need no crossings, so nothing here is rounded.                    *)
(***************************************************************************)
EXTENDS Overlay

\* winding number of directed edges around p (p on none of them)
WindEdge(a, b, p) ==
  IF a[1] <= p[1] /\ p[1] < b[1] THEN (IF Orient(a, b, p) > 0 THEN 1 ELSE 0)
  ELSE IF b[1] <= p[1] /\ p[1] < a[1] THEN (IF Orient(b, a, p) > 0 THEN -1 ELSE 0)
  ELSE 0

Wind(cs, p) == SumSeq([j \in 1..Len(cs) |-> SumSeq([i \in 1..Len(cs[j]) |-> WindEdge(cs[j][i], Nxt(cs[j], i), p)])])

\* a distance that p surely has from segment a-b
Far(a, b, p) ==
  LET d == Sub(b, a)
      long == Max2(Abs(d[1]), Abs(d[2]))  short == Min2(Abs(d[1]), Abs(d[2]))
      len == long + (short + 1) \div 2        \* not shorter than the segment
      bx == Max2(Min2(a[1], b[1]) - p[1], p[1] - Max2(a[1], b[1]))
      by == Max2(Min2(a[2], b[2]) - p[2], p[2] - Max2(a[2], b[2]))
      line == IF len = 0 THEN 0 ELSE Abs(Orient(a, b, p)) \div len
  IN  Max2(line, Max2(0, Max2(bx, by)))

Clearance(cs, p) ==
  FoldLeft(LAMBDA acc, c : FoldLeftDomain(LAMBDA m, i : Min2(m, Far(c[i], Nxt(c, i), p)), acc, c), 100000, cs)

Selected(fr, op, ws, wc) == Rule(op, Inside(fr, ws), Inside(fr, wc))

-----------------------------------------------------------------------------
(* What any result looks like, rounded or not.                             *)

\* the open segments have a point in common
Tangled(a, b, c, d) ==
  LET o1 == Sgn(Orient(a, b, c))  o2 == Sgn(Orient(a, b, d))
  IN  IF o1 = 0 /\ o2 = 0
      THEN \* on one line: more than an end point in common
           LET s == SegOf(a, b)  t == SegOf(c, d)
               lo == IF PLt(s[1], t[1]) THEN t[1] ELSE s[1]
               hi == IF PLt(s[2], t[2]) THEN s[2] ELSE t[2]
           IN  PLt(lo, hi)
      ELSE o1 * o2 < 0 /\ Sgn(Orient(c, d, a)) * Sgn(Orient(c, d, b)) < 0

BoxesApart(a, b, c, d) ==
  \/ Max2(a[1], b[1]) < Min2(c[1], d[1]) \/ Max2(c[1], d[1]) < Min2(a[1], b[1])
  \/ Max2(a[2], b[2]) < Min2(c[2], d[2]) \/ Max2(c[2], d[2]) < Min2(a[2], b[2])

ContourOk(c, ccw) ==
  /\ Len(c) >= 3
  /\ \A i \in 1..Len(c) : c[i] # Nxt(c, i)
  /\ IF ccw THEN Area2(c) > 0 ELSE Area2(c) < 0

\* shapes: sequence of sequences of contours, outlines counterclockwise
WellFormed(shapes) ==
  /\ \A i \in 1..Len(shapes) : Len(shapes[i]) >= 1 /\ \A j \in 1..Len(shapes[i]) : ContourOk(shapes[i][j], j = 1)
  /\ LET cs == FlattenSeq(shapes)
         es == FlattenSeq([j \in 1..Len(cs) |-> [i \in 1..Len(cs[j]) |-> <<cs[j][i], Nxt(cs[j], i)>>]])
     IN  \A i \in 1..Len(es) : \A j \in 1..(i - 1) :
           \/ BoxesApart(es[i][1], es[i][2], es[j][1], es[j][2])
           \/ ~Tangled(es[i][1], es[i][2], es[j][1], es[j][2])
=============================================================================
