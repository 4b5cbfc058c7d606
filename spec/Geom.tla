-------------------------------- MODULE Geom --------------------------------
(***************************************************************************)
(* Planar geometry on the integer lattice: points are pairs <<x, y>>,      *)
(* ordered lexicographically as the library orders them; a segment is a    *)
(* pair <<a, b>> with a before b.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions

Abs(n) == IF n < 0 THEN -n ELSE n
Sgn(n) == IF n < 0 THEN -1 ELSE IF n > 0 THEN 1 ELSE 0
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a

PLt(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
PLe(p, q) == p = q \/ PLt(p, q)
Sub(p, q) == <<p[1] - q[1], p[2] - q[2]>>
Add(p, q) == <<p[1] + q[1], p[2] + q[2]>>
Mul(k, p) == <<k * p[1], k * p[2]>>
Cross(u, v) == u[1] * v[2] - u[2] * v[1]
Dot(u, v) == u[1] * v[1] + u[2] * v[2]
\* > 0: p, q, r turn counterclockwise
Orient(p, q, r) == (q[1] - p[1]) * (r[2] - p[2]) - (q[2] - p[2]) * (r[1] - p[1])

SegOf(p, q) == IF PLt(p, q) THEN <<p, q>> ELSE <<q, p>>

\* next index in a cyclic sequence
Nxt(s, i) == IF i = Len(s) THEN s[1] ELSE s[i + 1]
Prv(s, i) == IF i = 1 THEN s[Len(s)] ELSE s[i - 1]
Edges(c) == {<<c[i], Nxt(c, i)>> : i \in 1..Len(c)}

SumSeq(s) == FoldLeft(LAMBDA x, y : x + y, 0, s)

\* twice the signed area of a closed contour, > 0 when counterclockwise
Area2(c) == FoldLeftDomain(LAMBDA acc, i : acc + Cross(c[i], Nxt(c, i)), 0, c)

\* Angular order used when a walk has to choose a turn.  u is the direction
\* back along the edge just walked.  CwBefore(u, v, w): rotating clockwise
\* from u, v is met strictly before w.
CwHalf(u, v) == LET k == Cross(u, v) IN IF k < 0 THEN 0 ELSE IF k > 0 THEN 1
                ELSE IF Dot(u, v) < 0 THEN 1 ELSE 2
CwBefore(u, v, w) ==
  LET hv == CwHalf(u, v)  hw == CwHalf(u, w)
  IN  hv < hw \/ (hv = hw /\ Cross(v, w) < 0)
CcwHalf(u, v) == LET k == Cross(u, v) IN IF k > 0 THEN 0 ELSE IF k < 0 THEN 1
                 ELSE IF Dot(u, v) < 0 THEN 1 ELSE 2
CcwBefore(u, v, w) ==
  LET hv == CcwHalf(u, v)  hw == CcwHalf(u, w)
  IN  hv < hw \/ (hv = hw /\ Cross(v, w) > 0)

\* least element of a set of points
MinPoint(S) == CHOOSE p \in S : \A q \in S : PLe(p, q)
SortPoints(S) == SetToSortSeq(S, PLt)

\* drop points in the middle of a straight run, until none is left
RECURSIVE Simp(_)
Simp(c) ==
  IF Len(c) < 3 THEN <<>>
  ELSE LET bad == {i \in 1..Len(c) : Orient(Prv(c, i), c[i], Nxt(c, i)) = 0}
       IN  IF bad = {} THEN c
           ELSE LET k == CHOOSE i \in bad : \A j \in bad : i <= j
                IN  Simp(SubSeq(c, 1, k - 1) \o SubSeq(c, k + 1, Len(c)))

\* rotation of a cyclic sequence that is least in the lexicographic order
RECURSIVE SeqLt(_, _)
SeqLt(s, t) == IF s = <<>> THEN t # <<>>
               ELSE IF t = <<>> THEN FALSE
               ELSE IF s[1] = t[1] THEN SeqLt(Tail(s), Tail(t))
               ELSE PLt(s[1], t[1])
Rot(c, k) == SubSeq(c, k, Len(c)) \o SubSeq(c, 1, k - 1)
Canon(c) ==
  IF c = <<>> THEN c
  ELSE LET m == MinPoint(Range(c))
           ks == {k \in 1..Len(c) : c[k] = m}
       IN  IF Cardinality(ks) = 1 THEN Rot(c, CHOOSE k \in ks : TRUE)
           ELSE LET rs == {Rot(c, k) : k \in ks}
                IN  CHOOSE r \in rs : \A t \in rs : r = t \/ SeqLt(r, t)
=============================================================================
