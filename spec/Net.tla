-------------------------------- MODULE Net ---------------------------------
(***************************************************************************)
(* Vectors: a net of edges, each with what lies on both of its sides.      *)
(* A row <<x1, y1, x2, y2, f>> is an edge and its sides: bit 1 (4) of f    *)
(* says that the left of it is inside the subject (clip), 2 (8) the right. *)
(* A net fits together by itself; rounding may move it, not tear it.       *)
(***************************************************************************)
EXTENDS Region

From(v) == <<v[1], v[2]>>
To(v) == <<v[3], v[4]>>
Bit(f, b) == (f \div b) % 2 = 1
Left(f) == <<Bit(f, 1), Bit(f, 4)>>
Right(f) == <<Bit(f, 2), Bit(f, 8)>>
Turn(f) == (f % 2) * 2 + ((f \div 2) % 2) + ((f \div 4) % 2) * 8 + ((f \div 8) % 2) * 4
\* from the lesser to the greater point, so that left is above
Upward(v) == IF PLt(From(v), To(v)) THEN v ELSE <<v[3], v[4], v[1], v[2], Turn(v[5])>>
\* x and y change places, and so do left and right
Mirror(v) == Upward(<<v[2], v[1], v[4], v[3], Turn(v[5])>>)

\* neither crosses the other, and some x lies within both: is t above s there?
Over(s, t) ==
  LET o == IF t[1] >= s[1] THEN Sgn(Orient(From(s), To(s), From(t))) ELSE -Sgn(Orient(From(t), To(t), From(s)))
      e == IF t[3] <= s[3] THEN Sgn(Orient(From(s), To(s), To(t))) ELSE -Sgn(Orient(From(t), To(t), To(s)))
  IN  IF o # 0 THEN o > 0 ELSE e > 0

\* the edges over x = k + 1/2 lie above each other, and between two of them is one face
Fits(net, k) ==
  LET over == {i \in 1..Len(net) : net[i][1] <= k /\ k < net[i][3]}
      under(i) == {j \in over : Over(net[j], net[i])}
      rank == [i \in over |-> Cardinality(under(i))]
  IN  \A i \in over :
        /\ Right(net[i][5]) =
             IF rank[i] = 0 THEN <<FALSE, FALSE>>
             ELSE LET below == {j \in over : rank[j] = rank[i] - 1}
                  IN  IF Cardinality(below) # 1 THEN <<"not one">>
                      ELSE Left(net[CHOOSE j \in below : TRUE][5])
        /\ rank[i] = Cardinality(over) - 1 => Left(net[i][5]) = <<FALSE, FALSE>>

\* what the net says of a point on none of its edges
AtPoint(net, p) ==
  LET under == {i \in 1..Len(net) : net[i][1] <= p[1] /\ p[1] < net[i][3] /\ Orient(From(net[i]), To(net[i]), p) > 0}
      top == {i \in under : \A j \in under : j = i \/ Over(net[j], net[i])}
  IN  IF under = {} THEN <<FALSE, FALSE>> ELSE Left(net[CHOOSE i \in top : TRUE][5])

Whole(net) ==
  /\ \A i \in 1..Len(net) : From(net[i]) # To(net[i])
  /\ \A i \in 1..Len(net) : \A j \in 1..(i - 1) :
       LET a == From(net[i])  b == To(net[i])  c == From(net[j])  d == To(net[j])
       IN  BoxesApart(a, b, c, d) \/ ~Tangled(a, b, c, d)

Length(a, b) == Abs(a[1] - b[1]) + Abs(a[2] - b[2])

\* parts of the net along v
Along(net, v) ==
  LET a == From(v)  b == To(v)
      on == {i \in 1..Len(net) :
               /\ ~BoxesApart(a, b, From(net[i]), To(net[i]))
               /\ Orient(a, b, From(net[i])) = 0 /\ Orient(a, b, To(net[i])) = 0
               /\ Tangled(a, b, From(net[i]), To(net[i]))}
  IN  [length |-> SumSeq(LET q == SetToSeq(on) IN [k \in 1..Len(q) |->
                    LET c == From(net[q[k]])  d == To(net[q[k]])
                    IN  Length(IF PLt(a, c) THEN c ELSE a, IF PLt(b, d) THEN b ELSE d)]),
       sides |-> {net[i][5] : i \in on}]

\* paths of directed edges, the region on the right of each
Corners(path) == [i \in 1..Len(path) |-> From(path[i])]
OutlineOk(net, path, op) ==
  \A i \in 1..Len(path) :
    LET v == path[i]  u == Upward(v)  r == Along(net, u)
    IN  /\ To(v) = From(Nxt(path, i))
        /\ r.length = Length(From(v), To(v))
        /\ r.sides = {u[5]}
        /\ Rule(op, Right(v[5])[1], Right(v[5])[2])
        /\ ~Rule(op, Left(v[5])[1], Left(v[5])[2])
Total(vs) == SumSeq([i \in 1..Len(vs) |-> Length(From(vs[i]), To(vs[i]))])
Border(net, op) == SelectSeq(net, LAMBDA v : Rule(op, Left(v[5])[1], Left(v[5])[2]) # Rule(op, Right(v[5])[1], Right(v[5])[2]))
=============================================================================
