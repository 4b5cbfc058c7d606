---------------------------- MODULE RegionLines -----------------------------
(***************************************************************************)
(* Lines against contours when crossings need not be representable.        *)
(* Nothing here is rounded: what is said holds away from all edges.        *)
(*   - points of the subject's region lie in exactly one slice             *)
(*   - points that see each other lie in the same slice                    *)
(*   - points that a line separates, which runs clean across all contours, *)
(*     lie in different slices                                             *)
(*   - a point of a line is kept by a clip when the rule says so           *)
(* A scene is [id, subj, lines, probes, marks]; marks are points next to   *)
(* lines: <<line, x, y>>.                                                  *)
(***************************************************************************)
EXTENDS Region, Json, IOUtils
CONSTANT Chunk
Scenes == ndJsonDeserialize(IOEnv.SCENES)
OutFile == IOEnv.OUT
VARIABLES ix, stage

LineEdge(l) == <<l[1], l[2]>>
EdgesOf(cs) == FlattenSeq([j \in 1..Len(cs) |-> [i \in 1..Len(cs[j]) |-> <<cs[j][i], Nxt(cs[j], i)>>]])

\* how far segment p-q surely is from segment e; 0 if they meet
Gap(p, q, e) ==
  LET o1 == Sgn(Orient(p, q, e[1]))  o2 == Sgn(Orient(p, q, e[2]))
      o3 == Sgn(Orient(e[1], e[2], p))  o4 == Sgn(Orient(e[1], e[2], q))
  IN  IF o1 * o2 <= 0 /\ o3 * o4 <= 0 THEN 0
      ELSE Min2(Min2(Far(p, q, e[1]), Far(p, q, e[2])), Min2(Far(e[1], e[2], p), Far(e[1], e[2], q)))
GapAll(p, q, es) == FoldLeft(LAMBDA acc, e : Min2(acc, Gap(p, q, e)), 100000, es)

ClearOf(es, p) == FoldLeft(LAMBDA acc, e : Min2(acc, Far(e[1], e[2], p)), 100000, es)

\* the line runs clean across everything: no contour goes beyond either of its ends
Across(cs, l) ==
  LET d == Sub(l[2], l[1])  dd == Dot(d, d) IN
  \A j \in 1..Len(cs) : \A i \in 1..Len(cs[j]) :
    LET t == Dot(d, Sub(cs[j][i], l[1])) IN 0 < t /\ t < dd

Row(sc) ==
  LET se == EdgesOf(sc.subj)
      le == [i \in 1..Len(sc.lines) |-> LineEdge(sc.lines[i])]
      all == se \o le
      n == Len(sc.probes)
      pr == TLCEval([i \in 1..n |-> LET p == sc.probes[i]  c == ClearOf(all, p) IN <<p[1], p[2], c, IF c = 0 THEN 0 ELSE Wind(sc.subj, p)>>])
      full == {i \in 1..Len(le) : Across(sc.subj, le[i])}
      pairs == {<<i, j>> \in (1..n) \X (1..n) : i < j /\ pr[i][3] > 0 /\ pr[j][3] > 0}
      same == [x \in pairs |-> GapAll(sc.probes[x[1]], sc.probes[x[2]], all)]
      apart == {x \in pairs : \E l \in full :
                  (Orient(le[l][1], le[l][2], sc.probes[x[1]]) > 0) # (Orient(le[l][1], le[l][2], sc.probes[x[2]]) > 0)}
      others(k) == SubSeq(le, 1, k - 1) \o SubSeq(le, k + 1, Len(le))
  IN  [id |-> sc.id, probes |-> pr,
       same |-> SetToSeq({<<x[1], x[2], same[x]>> : x \in {y \in pairs : same[y] > 0}}),
       apart |-> SetToSeq(apart),
       marks |-> [i \in 1..Len(sc.marks) |->
          LET m == sc.marks[i]  p == <<m[2], m[3]>>  c == ClearOf(se, p)
          IN  <<m[1], m[2], m[3], c, ClearOf(others(m[1]), p), IF c = 0 THEN 0 ELSE Wind(sc.subj, p)>>]]

NChunks == (Len(Scenes) + Chunk - 1) \div Chunk
Init == ix \in 1..NChunks /\ stage = "scene"
Emit == /\ stage = "scene"
        /\ LET lo == (ix - 1) * Chunk + 1
               hi == Min2(ix * Chunk, Len(Scenes))
           IN  ndJsonSerialize(OutFile \o "/" \o ToString(ix) \o ".ndjson",
                               [i \in 1..(hi - lo + 1) |-> Row(Scenes[lo + i - 1])])
        /\ stage' = "done" /\ UNCHANGED ix
Next == Emit
Spec == Init /\ [][Next]_<<ix, stage>>
=============================================================================
