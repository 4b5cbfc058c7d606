------------------------------- MODULE Strings -------------------------------
(***************************************************************************)
(* Open lines against closed contours: clipping lines by a shape, and      *)
(* slicing a shape along lines.                                            *)
(*                                                                         *)
(* A scene is a record [k, subj, lines]: contours, and directed lines      *)
(* <<p, q>>, with every crossing integral at scale k.                      *)
(***************************************************************************)
EXTENDS Overlay

\* segment -> << subject count, walked forward, walked backward >>
CollectS(sc) ==
  LET si == EdgeIx(sc.subj)
      sd == TLCEval([e \in si |-> DirEdge(sc.subj, e)])
      li == {i \in 1..Len(sc.lines) : sc.lines[i][1] # sc.lines[i][2]}
      und(d) == SegOf(d[1], d[2])
      sg(d) == IF PLt(d[1], d[2]) THEN 1 ELSE -1
      has(s, dir) == IF \E i \in li : und(sc.lines[i]) = s /\ sg(sc.lines[i]) = dir THEN 1 ELSE 0
      S == {und(sd[e]) : e \in si} \cup {und(sc.lines[i]) : i \in li}
      cnt == TLCEval([s \in S |->
                << FoldSet(LAMBDA e, acc : IF und(sd[e]) = s THEN acc + sg(sd[e]) ELSE acc, 0, si),
                   has(s, 1), has(s, -1) >>])
  IN  TLCEval([s \in {t \in S : cnt[t] # <<0, 0, 0>>} |-> cnt[s]])

PiecesS(k, cnt) ==
  LET segs == DOMAIN cnt
      st == TLCEval([s \in segs |-> Stops(k, segs, s)])
      pc == TLCEval([s \in segs |-> {<<st[s][i], st[s][i + 1]>> : i \in 1..(Len(st[s]) - 1)}])
      all == TLCEval(UNION {pc[s] : s \in segs})
      sum == TLCEval([e \in all |->
                << FoldSet(LAMBDA s, acc : IF e \in pc[s] THEN acc + cnt[s][1] ELSE acc, 0, segs),
                   FoldSet(LAMBDA s, acc : IF e \in pc[s] THEN Max2(acc, cnt[s][2]) ELSE acc, 0, segs),
                   FoldSet(LAMBDA s, acc : IF e \in pc[s] THEN Max2(acc, cnt[s][3]) ELSE acc, 0, segs) >>])
  IN  TLCEval([e \in {f \in all : sum[f] # <<0, 0, 0>>} |-> sum[e]])

\* piece -> << subject below, subject above, forward, backward >>
ArrangeS(sc) ==
  LET cnt == CollectS(sc)
      pcs == PiecesS(sc.k, cnt)
  IN  TLCEval([e \in DOMAIN pcs |->
         LET b == BelowCount(sc.k, cnt, e, 1)
         IN  << b, b + pcs[e][1], pcs[e][2], pcs[e][3] >>])

SidesIn(fr, w) == (IF Inside(fr, w[1]) THEN 1 ELSE 0) + (IF Inside(fr, w[2]) THEN 1 ELSE 0)

-----------------------------------------------------------------------------
(* Clip: the stretches of the lines that lie inside, as directed pieces.   *)
(* One side inside and one outside is the boundary.                        *)
Kept(fr, w, invert, included) ==
  LET c == SidesIn(fr, w) IN
  IF invert THEN (IF included THEN c = 0 ELSE c < 2)
            ELSE (IF included THEN c > 0 ELSE c = 2)

Clipped(arr, fr, invert, included) ==
  {e \in DOMAIN arr : arr[e][3] = 1 /\ Kept(fr, arr[e], invert, included)} \cup
  {<<e[2], e[1]>> : e \in {f \in DOMAIN arr : arr[f][4] = 1 /\ Kept(fr, arr[f], invert, included)}}

-----------------------------------------------------------------------------
(* Slice: the faces inside the subject of the net that contours and lines  *)
(* make.  H: directed pieces with a face of the result on their left.      *)
Halves(arr, fr) ==
  {e \in DOMAIN arr : Inside(fr, arr[e][2])} \cup
  {<<e[2], e[1]>> : e \in {f \in DOMAIN arr : Inside(fr, arr[f][1])}}

\* the next edge along the same face
NextHalf(H, h) ==
  LET out == {e \in H : e[1] = h[2]}
      u == Sub(h[1], h[2])
  IN  CHOOSE e \in out : \A f \in out : f = e \/ CwBefore(u, Sub(e[2], h[2]), Sub(f[2], h[2]))

RECURSIVE FaceOf(_, _, _)
FaceOf(nx, h0, path) ==
  LET n == nx[path[Len(path)]] IN
  IF n = h0 THEN path ELSE FaceOf(nx, h0, Append(path, n))

RECURSIVE FaceWalks(_, _)
FaceWalks(nx, H) ==
  IF H = {} THEN {}
  ELSE LET h == CHOOSE x \in H : TRUE
           f == FaceOf(nx, h, <<h>>)
       IN  {f} \cup FaceWalks(nx, H \ Range(f))

Walks(H) == FaceWalks(TLCEval([h \in H |-> NextHalf(H, h)]), H)

\* pieces with the same face on both sides divide nothing
Dividing(H) ==
  LET dead == UNION {{h \in Range(f) : <<h[2], h[1]>> \in Range(f)} : f \in Walks(H)}
  IN  H \ dead

\* a face walk comes apart where it passes a point again
RECURSIVE LoopsOf(_, _)
LoopsOf(rest, path) ==
  IF rest = <<>> THEN IF path = <<>> THEN {} ELSE {path}
  ELSE LET p == Head(rest)
       IN  IF p \in Range(path)
           THEN LET i == CHOOSE j \in 1..Len(path) : path[j] = p
                IN  {SubSeq(path, i, Len(path))} \cup LoopsOf(Tail(rest), SubSeq(path, 1, i))
           ELSE LoopsOf(Tail(rest), Append(path, p))

Loops(H) == UNION {LoopsOf([i \in 1..Len(f) |-> f[i][1]], <<>>) : f \in Walks(H)}

\* the point just on the left of edge p -> q (not vertical) of a loop lies inside of c
LeftInside(p, q, c) ==
  LET m == Add(p, q)
      up == p[1] < q[1]       \* the left side is the upper one
  IN  Cardinality({i \in 1..Len(c) :
        LET s == SegOf(c[i], Nxt(c, i))
            z == Cross(Sub(s[2], s[1]), Sub(m, Mul(2, s[1])))
        IN  2 * s[1][1] <= m[1] /\ m[1] < 2 * s[2][1] /\ (z > 0 \/ (z = 0 /\ up))}) % 2 = 1

SliceOwner(outers, h) ==
  LET i == CHOOSE j \in 1..Len(h) : h[j][1] # Nxt(h, j)[1]
      c == {o \in outers : LeftInside(h[i], Nxt(h, i), o)}
  IN  CHOOSE o \in c : \A p \in c : Area2(o) <= Area2(p)

Slices(arr, fr) ==
  LET ls == Loops(Dividing(Halves(arr, fr)))
      outer == {l \in ls : Area2(l) > 0}
      hole == {l \in ls : Area2(l) < 0}
  IN  {<< Canon(Simp(o)), {Canon(Simp(h)) : h \in {g \in hole : SliceOwner(outer, g) = o}} >> : o \in outer}
=============================================================================
