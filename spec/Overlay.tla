------------------------------- MODULE Overlay -------------------------------
(***************************************************************************)
(* The Boolean overlay engine, stage by stage:                             *)
(*                                                                         *)
(*   contours --(collect)--> segments with winding counts                  *)
(*            --(split)----> pieces that meet only at end points           *)
(*            --(merge)----> one piece per place, counts added             *)
(*            --(fill)-----> what lies below / above each piece            *)
(*            --(filter)---> pieces where the rule changes its mind        *)
(*            --(extract)--> closed walks along the kept pieces            *)
(*            --(bind)-----> holes attached to the outline around them     *)
(*                                                                         *)
(* A scene is a record [k, subj, clip]: two sequences of closed contours   *)
(* with small integer coordinates, and a scale k such that every crossing  *)
(* of two edges has integer coordinates after multiplication by k.  All    *)
(* results are in scaled coordinates.                                      *)
(***************************************************************************)
EXTENDS Geom, TLC

FillRules == <<"EvenOdd", "NonZero", "Positive", "Negative">>
OverlayRules == <<"Subject", "Clip", "Intersect", "Union", "Difference",
                  "InverseDifference", "Xor">>

Inside(fr, n) == CASE fr = "EvenOdd"  -> n % 2 = 1
                   [] fr = "NonZero"  -> n # 0
                   [] fr = "Positive" -> n > 0
                   [] fr = "Negative" -> n < 0

Rule(op, s, c) == CASE op = "Subject"           -> s
                    [] op = "Clip"              -> c
                    [] op = "Intersect"         -> s /\ c
                    [] op = "Union"             -> s \/ c
                    [] op = "Difference"        -> s /\ ~c
                    [] op = "InverseDifference" -> c /\ ~s
                    [] op = "Xor"               -> s # c

-----------------------------------------------------------------------------
(* Collect: every contour edge p -> q with p # q counts +1 when it runs in *)
(* the direction of the order and -1 against it, in its own layer.         *)

EdgeIx(cs) == UNION {{<<j, i>> : i \in {h \in 1..Len(cs[j]) : cs[j][h] # Nxt(cs[j], h)}} : j \in 1..Len(cs)}
DirEdge(cs, e) == <<cs[e[1]][e[2]], Nxt(cs[e[1]], e[2])>>

Collect(sc) ==
  LET si == EdgeIx(sc.subj)  ci == EdgeIx(sc.clip)
      sd == TLCEval([e \in si |-> DirEdge(sc.subj, e)])
      cd == TLCEval([e \in ci |-> DirEdge(sc.clip, e)])
      und(d) == SegOf(d[1], d[2])
      sg(d) == IF PLt(d[1], d[2]) THEN 1 ELSE -1
      S == {und(sd[e]) : e \in si} \cup {und(cd[e]) : e \in ci}
      cnt == TLCEval([s \in S |->
                << FoldSet(LAMBDA e, acc : IF und(sd[e]) = s THEN acc + sg(sd[e]) ELSE acc, 0, si),
                   FoldSet(LAMBDA e, acc : IF und(cd[e]) = s THEN acc + sg(cd[e]) ELSE acc, 0, ci) >>])
  IN  TLCEval([s \in {t \in S : cnt[t] # <<0, 0>>} |-> cnt[s]])

-----------------------------------------------------------------------------
(* Split.  CutPoints(k, s, t): where t forces a vertex on s, scaled by k.  *)

OnSeg(s, p) == Orient(s[1], s[2], p) = 0 /\ PLe(s[1], p) /\ PLe(p, s[2])

CutPoints(k, s, t) ==
  LET d1 == Sub(s[2], s[1])  d2 == Sub(t[2], t[1])  w == Sub(t[1], s[1])
      den == Cross(d1, d2)
  IN  IF den = 0
      THEN IF Cross(d1, w) # 0 THEN {}
           ELSE {Mul(k, p) : p \in {q \in {t[1], t[2]} : PLe(s[1], q) /\ PLe(q, s[2])}}
      ELSE LET u == Cross(w, d2) * Sgn(den)  v == Cross(w, d1) * Sgn(den)  d == Abs(den)
           IN  IF u < 0 \/ u > d \/ v < 0 \/ v > d THEN {}
               ELSE {<< (k * (s[1][1] * d + d1[1] * u)) \div d,
                        (k * (s[1][2] * d + d1[2] * u)) \div d >>}

\* every crossing is integral at scale k
ScaleOk(sc) ==
  LET S == DOMAIN Collect(sc) IN
  \A s \in S, t \in S :
    LET d1 == Sub(s[2], s[1])  d2 == Sub(t[2], t[1])  w == Sub(t[1], s[1])
        den == Cross(d1, d2)
    IN  den = 0 \/ LET u == Cross(w, d2)  d == Abs(den) IN
                   (sc.k * d1[1] * u) % d = 0 /\ (sc.k * d1[2] * u) % d = 0

\* the points along s, in order
Stops(k, segs, s) ==
  SortPoints({Mul(k, s[1]), Mul(k, s[2])} \cup UNION {CutPoints(k, s, t) : t \in segs \ {s}})

\* pieces of all segments, with the summed counts of the segments over them
Pieces(k, cnt) ==
  LET segs == DOMAIN cnt
      st == TLCEval([s \in segs |-> Stops(k, segs, s)])
      pc == TLCEval([s \in segs |-> {<<st[s][i], st[s][i + 1]>> : i \in 1..(Len(st[s]) - 1)}])
      all == TLCEval(UNION {pc[s] : s \in segs})
      sum == TLCEval([e \in all |->
                << FoldSet(LAMBDA s, acc : IF e \in pc[s] THEN acc + cnt[s][1] ELSE acc, 0, segs),
                   FoldSet(LAMBDA s, acc : IF e \in pc[s] THEN acc + cnt[s][2] ELSE acc, 0, segs) >>])
  IN  TLCEval([e \in {f \in all : sum[f] # <<0, 0>>} |-> sum[e]])

-----------------------------------------------------------------------------
(* Fill.  The winding numbers just below a piece (to its right when it is  *)
(* vertical) come from the original edges straight under its middle.       *)

BelowCount(k, cnt, e, layer) ==
  LET m == Add(e[1], e[2])  kk == 2 * k
  IN  FoldSet(LAMBDA s, acc :
                IF /\ kk * s[1][1] <= m[1] /\ m[1] < kk * s[2][1]
                   /\ Cross(Sub(s[2], s[1]), Sub(m, Mul(kk, s[1]))) > 0
                THEN acc + cnt[s][layer] ELSE acc, 0, DOMAIN cnt)

\* the arrangement: piece -> << subj below, clip below, subj above, clip above >>
Arrange(sc) ==
  LET cnt == Collect(sc)
      pcs == Pieces(sc.k, cnt)
  IN  TLCEval([e \in DOMAIN pcs |->
         LET sb == BelowCount(sc.k, cnt, e, 1)  cb == BelowCount(sc.k, cnt, e, 2)
         IN  << sb, cb, sb + pcs[e][1], cb + pcs[e][2] >>])

-----------------------------------------------------------------------------
(* Filter.  Directed pieces, with the result on the left.                  *)

Above(fr, op, w) == Rule(op, Inside(fr, w[3]), Inside(fr, w[4]))
Below(fr, op, w) == Rule(op, Inside(fr, w[1]), Inside(fr, w[2]))

Boundary(arr, fr, op) ==
  {e \in DOMAIN arr : Above(fr, op, arr[e]) /\ ~Below(fr, op, arr[e])}
  \cup {<<e[2], e[1]>> : e \in {f \in DOMAIN arr : ~Above(fr, op, arr[f]) /\ Below(fr, op, arr[f])}}

-----------------------------------------------------------------------------
(* Extract.  U is the set of directed pieces not walked yet; for a         *)
(* clockwise main direction all pieces are reversed (result on the right). *)

Low(e) == IF PLt(e[1], e[2]) THEN e[1] ELSE e[2]
High(e) == IF PLt(e[1], e[2]) THEN e[2] ELSE e[1]

\* the topmost piece at the leftmost point
StartPiece(U) ==
  LET a == MinPoint({Low(e) : e \in U})
      at == {e \in U : Low(e) = a}
  IN  CHOOSE e \in at : \A f \in at : f = e \/ Orient(a, High(e), High(f)) < 0

NextPiece(U, p, c, clockwise) ==
  LET out == {e \in U : e[1] = c}
      u == Sub(p, c)
  IN  CHOOSE e \in out : \A f \in out : f = e \/
        IF clockwise THEN CwBefore(u, Sub(e[2], c), Sub(f[2], c))
                     ELSE CcwBefore(u, Sub(e[2], c), Sub(f[2], c))

\* walk until the first point of the walk is met again
RECURSIVE Walk(_, _, _)
Walk(U, path, clockwise) ==
  LET n == Len(path) IN
  IF path[n] = path[1] THEN [path |-> SubSeq(path, 1, n - 1), left |-> U]
  ELSE LET e == NextPiece(U, path[n - 1], path[n], clockwise)
       IN  Walk(U \ {e}, Append(path, e[2]), clockwise)

\* walk until the piece the walk began with comes up again
RECURSIVE WalkTo(_, _, _, _)
WalkTo(U, first, path, clockwise) ==
  LET n == Len(path)
      e == NextPiece(U, path[n - 1], path[n], clockwise)
  IN  IF e = first THEN [path |-> Tail(path), left |-> U \ {e}]
      ELSE WalkTo(U \ {e}, first, Append(path, e[2]), clockwise)

\* the straight run of pieces that leads into piece e, back to the point where
\* the boundary bends or touches itself
RECURSIVE RunInto(_, _)
RunInto(U, run) ==
  LET p == run[1]
      into == {e \in U : e[2] = p}
  IN  IF Cardinality(into) # 1 THEN run
      ELSE LET e == CHOOSE x \in into : TRUE
           IN  IF Cross(Sub(p, e[1]), Sub(run[2], p)) # 0 \/ Dot(Sub(p, e[1]), Sub(run[2], p)) < 0 THEN run
               ELSE RunInto(U, <<e[1]>> \o run)

(* The ways to extract one contour: a set of [path, hole, left].            *)
(* A walk is closed when it meets the point it began in.  If the first      *)
(* piece leads away from the leftmost point, that is the leftmost point.    *)
(* If it leads into it, the walk begins somewhere on the straight run that  *)
(* ends there, and where exactly depends on the vertices that cancelled     *)
(* segments left on the run.  This shows only when the boundary touches     *)
(* itself at the far end of the run: both outcomes are allowed then.        *)
ExtractOne(U, cw) ==
  LET e == StartPiece(U)
      fwd == PLt(e[1], e[2])
      hole == fwd # cw          \* the result lies above the topmost piece
      turn == hole = cw
      res(w) == [path |-> w.path, hole |-> hole, left |-> w.left]
  IN  IF fwd THEN {res(Walk(U \ {e}, e, turn))}
      ELSE LET run == RunInto(U, e)
               used == {<<run[i], run[i + 1]>> : i \in 1..(Len(run) - 1)}
           IN  {res(Walk(U \ used, run, turn))} \cup
               (IF Cardinality({x \in U : x[2] = run[1]}) > 1
                THEN {res(WalkTo(U, e, e, turn))} ELSE {})

\* the sets of contours the boundary may come apart into: [path, hole], whichever
\* point a path began with
RECURSIVE ExtractAll(_, _)
ExtractAll(U, cw) ==
  IF U = {} THEN {{}}
  ELSE LET ones == {[path |-> Canon(x.path), hole |-> x.hole, left |-> x.left] : x \in ExtractOne(U, cw)}
       IN  UNION {{ {[path |-> x.path, hole |-> x.hole]} \cup r : r \in ExtractAll(x.left, cw) } : x \in ones}

-----------------------------------------------------------------------------
(* Bind.  A hole belongs to the smallest outline around it.  m is the      *)
(* doubled middle of a piece of the hole.                                  *)

CrossingsUnder(m, c) ==
  Cardinality({i \in 1..Len(c) :
    LET s == SegOf(c[i], Nxt(c, i)) IN
    /\ 2 * s[1][1] <= m[1] /\ m[1] < 2 * s[2][1]
    /\ Cross(Sub(s[2], s[1]), Sub(m, Mul(2, s[1]))) > 0})
Surrounds(outer, hole) == CrossingsUnder(Add(hole[1], hole[2]), outer) % 2 = 1

Owner(outers, hole) ==
  LET c == {o \in outers : Surrounds(o, hole)}
  IN  CHOOSE o \in c : \A p \in c : Abs(Area2(o)) <= Abs(Area2(p))

KeepArea(c, minArea) == Len(c) >= 3 /\ (minArea = 0 \/ Abs(Area2(c)) \div 2 >= minArea)

\* the shapes of one way to take the boundary apart: set of << outline, set
\* of holes >>, contours simplified and canonical
Bound(xs, minArea) ==
  LET ok == {x \in xs : KeepArea(Simp(x.path), minArea)}
      outer == {x.path : x \in {y \in ok : ~y.hole}}
      hole == {x.path : x \in {y \in ok : y.hole}}
  IN  {<< Canon(Simp(o)), {Canon(Simp(h)) : h \in {g \in hole : Owner(outer, g) = o}} >> : o \in outer}

\* all ways
Shapes(U0, cw, minArea) ==
  LET U == IF cw THEN {<<e[2], e[1]>> : e \in U0} ELSE U0
  IN  {Bound(xs, minArea) : xs \in ExtractAll(U, cw)}

\* every point of the boundary is passed once: the contours are unambiguous
Pinched(U) == Cardinality({e[1] : e \in U}) # Cardinality(U)

=============================================================================
