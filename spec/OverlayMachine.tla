--------------------------- MODULE OverlayMachine ---------------------------
(***************************************************************************)
(* The Boolean overlay as a machine that takes small steps:                *)
(*                                                                         *)
(*   collect  contour edges come in one by one, in any order               *)
(*   split    any two segments that meet are cut where they meet           *)
(*   fill     a sweep over the points, left to right                       *)
(*   ask      a fill rule, an overlay rule and a direction                 *)
(*   walk     contours are walked piece by piece                           *)
(*   done                                                                  *)
(*                                                                         *)
(* The model checker takes every order of steps.  Whatever the order, each *)
(* stage ends in what the operators of Overlay say, and the contours of    *)
(* the last stage enclose what the winding numbers of the first demand.    *)
(***************************************************************************)
EXTENDS Region, Json, IOUtils

Scenes == ndJsonDeserialize(IOEnv.SCENES)
\* rules asked for: all, or a few that differ from scene to scene
Rules(i) == IF IOEnv.RULES = "all" THEN (1..4) \X (1..7) \X BOOLEAN
            ELSE {<<(i % 4) + 1, (i % 7) + 1, i % 2 = 0>>, <<(i % 3) + 2, ((i + 3) % 7) + 1, i % 2 = 1>>}

VARIABLES ix, phase, todo, segs, arr, ask, left, walk, found
vars == <<ix, phase, todo, segs, arr, ask, left, walk, found>>

sc == Scenes[ix]
NoWalk == [path |-> <<>>, hole |-> FALSE, until |-> <<>>]

Init == /\ ix \in 1..Len(Scenes)
        /\ phase = "collect"
        /\ todo = {<<1, e>> : e \in EdgeIx(Scenes[ix].subj)} \cup {<<2, e>> : e \in EdgeIx(Scenes[ix].clip)}
        /\ segs = <<>> /\ arr = <<>> /\ ask = <<>> /\ left = {} /\ walk = NoWalk /\ found = {}

Count(f, s, v) == IF s \in DOMAIN f THEN [f EXCEPT ![s] = <<@[1] + v[1], @[2] + v[2]>>] ELSE f @@ (s :> v)
RECURSIVE CountAll(_, _, _)
CountAll(f, ss, v) == IF ss = <<>> THEN f ELSE CountAll(Count(f, Head(ss), v), Tail(ss), v)
NonZero(f) == [s \in {t \in DOMAIN f : f[t] # <<0, 0>>} |-> f[s]]

\* without an order of edges to choose from there is one behaviour less to explore for each
Pick(S) == IF IOEnv.ORDER = "any" THEN S ELSE {CHOOSE x \in S : TRUE}

Collecting ==
  /\ phase = "collect"
  /\ \E e \in Pick(todo) :
       LET d == DirEdge(IF e[1] = 1 THEN sc.subj ELSE sc.clip, e[2])
           n == IF PLt(d[1], d[2]) THEN 1 ELSE -1
           s == SegOf(Mul(sc.k, d[1]), Mul(sc.k, d[2]))
           f == Count(segs, s, IF e[1] = 1 THEN <<n, 0>> ELSE <<0, n>>)
       IN  /\ todo' = todo \ {e}
           /\ segs' = IF todo' = {} THEN NonZero(f) ELSE f
           /\ phase' = IF todo' = {} THEN "split" ELSE "collect"
  /\ UNCHANGED <<ix, arr, ask, left, walk, found>>

\* where t cuts s, between its ends
Cuts(s, t) ==
  LET d1 == Sub(s[2], s[1])  d2 == Sub(t[2], t[1])  w == Sub(t[1], s[1])
      den == Cross(d1, d2)
      at == IF den = 0
            THEN IF Cross(d1, w) # 0 THEN {} ELSE {t[1], t[2]}
            ELSE LET u == Cross(w, d2) * Sgn(den)  v == Cross(w, d1) * Sgn(den)  d == Abs(den)
                 IN  IF u < 0 \/ u > d \/ v < 0 \/ v > d THEN {}
                     ELSE {<<s[1][1] + (d1[1] * u) \div d, s[1][2] + (d1[2] * u) \div d>>}
  IN  {p \in at : PLt(s[1], p) /\ PLt(p, s[2])}

Parts(s, ps) == LET q == <<s[1]>> \o SortPoints(ps) \o <<s[2]>> IN [i \in 1..(Len(q) - 1) |-> <<q[i], q[i + 1]>>]
Meeting(f) == {p \in (DOMAIN f) \X (DOMAIN f) : p[1] # p[2] /\ PLt(p[2][1], p[1][2]) /\ PLt(p[1][1], p[2][2]) /\ Cuts(p[1], p[2]) # {}}

\* a segment that cancels out goes on cutting others until the end of the stage
Splitting ==
  /\ phase = "split"
  /\ LET ms == Meeting(segs) IN
     IF ms = {} THEN
       /\ segs' = NonZero(segs)
       /\ phase' = "fill" /\ todo' = {s[1] : s \in DOMAIN segs'}
     ELSE
       /\ \E m \in Pick(ms) :
            LET s == m[1]  t == m[2]
                f == [e \in DOMAIN segs \ {s, t} |-> segs[e]]
            IN  segs' = CountAll(CountAll(f, Parts(s, Cuts(s, t)), segs[s]), Parts(t, Cuts(t, s)), segs[t])
       /\ UNCHANGED <<phase, todo>>
  /\ UNCHANGED <<ix, arr, ask, left, walk, found>>

\* e runs above f, both cross the sweep line at the same time
Over(e, f) ==
  IF e[1] = f[1] THEN Orient(e[1], e[2], f[2]) < 0
  ELSE IF PLt(e[1], f[1]) THEN Orient(e[1], e[2], f[1]) < 0
  ELSE Orient(f[1], f[2], e[1]) > 0

RECURSIVE Stack(_, _, _)
Stack(es, base, f) ==
  IF es = <<>> THEN f
  ELSE LET e == Head(es)  up == <<base[1] + segs[e][1], base[2] + segs[e][2]>>
       IN  Stack(Tail(es), up, f @@ (e :> <<base[1], base[2], up[1], up[2]>>))

Filling ==
  /\ phase = "fill"
  /\ IF todo = {} THEN phase' = "ask" /\ UNCHANGED <<todo, arr>>
     ELSE LET p == MinPoint(todo)
              live == {e \in DOMAIN arr : PLt(p, e[2]) /\ Orient(e[1], e[2], p) > 0}
              base == IF live = {} THEN <<0, 0>>
                      ELSE LET e == CHOOSE x \in live : \A y \in live : x = y \/ Over(x, y) IN <<arr[e][3], arr[e][4]>>
              es == SetToSortSeq({e \in DOMAIN segs : e[1] = p}, LAMBDA a, b : Orient(p, a[2], b[2]) > 0)
          IN  arr' = Stack(es, base, arr) /\ todo' = todo \ {p} /\ UNCHANGED phase
  /\ UNCHANGED <<ix, segs, ask, left, walk, found>>

Turned(U) == {<<e[2], e[1]>> : e \in U}
Asking ==
  /\ phase = "ask"
  /\ \E r \in Rules(ix) :
       LET U == Boundary(arr, FillRules[r[1]], OverlayRules[r[2]])
       IN  ask' = r /\ left' = (IF r[3] THEN Turned(U) ELSE U)
  /\ phase' = "walk"
  /\ UNCHANGED <<ix, todo, segs, arr, walk, found>>

Starting ==
  /\ phase = "walk" /\ walk = NoWalk /\ left # {}
  /\ LET e == StartPiece(left)
         fwd == PLt(e[1], e[2])
         hole == fwd # ask[3]
         run == RunInto(left, e)
         used == {<<run[i], run[i + 1]>> : i \in 1..(Len(run) - 1)}
     IN  \/ fwd /\ walk' = [path |-> e, hole |-> hole, until |-> <<>>] /\ left' = left \ {e}
         \/ ~fwd /\ walk' = [path |-> run, hole |-> hole, until |-> <<>>] /\ left' = left \ used
         \/ /\ ~fwd /\ Cardinality({x \in left : x[2] = run[1]}) > 1
            /\ walk' = [path |-> e, hole |-> hole, until |-> e] /\ UNCHANGED left
  /\ UNCHANGED <<ix, phase, todo, segs, arr, ask, found>>

Walking ==
  /\ phase = "walk" /\ walk # NoWalk
  /\ LET n == Len(walk.path)
         nx == NextPiece(left, walk.path[n - 1], walk.path[n], walk.hole = ask[3])
         close(path) == found' = found \cup {[path |-> path, hole |-> walk.hole]} /\ walk' = NoWalk
     IN  IF walk.until = <<>> /\ walk.path[n] = walk.path[1]
         THEN close(SubSeq(walk.path, 1, n - 1)) /\ UNCHANGED left
         ELSE /\ left' = left \ {nx}
              /\ IF nx = walk.until THEN close(Tail(walk.path))
                 ELSE walk' = [walk EXCEPT !.path = Append(@, nx[2])] /\ UNCHANGED found
  /\ UNCHANGED <<ix, phase, todo, segs, arr, ask>>

Finishing == /\ phase = "walk" /\ walk = NoWalk /\ left = {} /\ phase' = "done"
             /\ UNCHANGED <<ix, todo, segs, arr, ask, left, walk, found>>

Next == Collecting \/ Splitting \/ Filling \/ Asking \/ Starting \/ Walking \/ Finishing
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
Scaled(cs) == [j \in 1..Len(cs) |-> [i \in 1..Len(cs[j]) |-> Mul(sc.k, cs[j][i])]]
Probes == {p \in Range(sc.probes) : Min2(Clearance(Scaled(sc.subj), p), Clearance(Scaled(sc.clip), p)) > 0}

\* the counts of a layer, seen from a point
WindOf(f, layer, p) == FoldSet(LAMBDA s, acc : acc + f[s][layer] * WindEdge(s[1], s[2], p), 0, DOMAIN f)
\* whatever was cut: winding numbers stay as the contours have them
WindingKept == phase \in {"split", "fill"} =>
  \A p \in Probes : WindOf(segs, 1, p) = Wind(Scaled(sc.subj), p) /\ WindOf(segs, 2, p) = Wind(Scaled(sc.clip), p)
\* as many ways into a point as out of it
Balanced == phase \in {"split", "fill"} =>
  \A v \in UNION {{s[1], s[2]} : s \in DOMAIN segs} : \A l \in 1..2 :
     FoldSet(LAMBDA s, acc : acc + (IF s[1] = v THEN segs[s][l] ELSE IF s[2] = v THEN -segs[s][l] ELSE 0), 0, DOMAIN segs) = 0
\* the order of cuts does not matter
SplitRight == (phase = "fill" /\ arr = <<>>) => segs = Pieces(sc.k, Collect(sc))
\* the sweep finds what a look straight down finds
FillRight == (phase = "ask") => arr = Arrange(sc)
\* nothing is walked twice or left out, the walk always finds a way on
Walked == {<<walk.path[i], walk.path[i + 1]>> : i \in 1..(Len(walk.path) - 1)}
InContours == UNION {Edges(x.path) : x \in found}
WalkRight == (phase = "walk" /\ walk # NoWalk /\ walk.path[1] # walk.path[Len(walk.path)]) => \E e \in left : e[1] = walk.path[Len(walk.path)]
\* what was asked for
U0 == LET U == Boundary(arr, FillRules[ask[1]], OverlayRules[ask[2]]) IN IF ask[3] THEN Turned(U) ELSE U
Complete == phase = "done" => /\ InContours = U0
                              /\ Cardinality(U0) = FoldSet(LAMBDA x, acc : acc + Len(x.path), 0, found)
                              /\ {[path |-> Canon(x.path), hole |-> x.hole] : x \in found} \in ExtractAll(U0, ask[3])
\* outlines run in the asked direction, holes against it
Directed == \A x \in found : IF x.hole = ask[3] THEN Area2(x.path) > 0 ELSE Area2(x.path) < 0
\* every hole has an outline around it
Owned == phase = "done" =>
  LET outer == {x.path : x \in {y \in found : ~y.hole}}
  IN  \A x \in found : x.hole => \E o \in outer : Surrounds(o, x.path) /\ \A q \in outer : Surrounds(q, x.path) => q = o \/ Abs(Area2(o)) # Abs(Area2(q))
\* and together the contours enclose what the rules select
RegionRight == phase = "done" =>
  \A p \in Probes :
    FoldSet(LAMBDA x, acc : acc + Wind(<<x.path>>, p), 0, found)
      = (IF Selected(FillRules[ask[1]], OverlayRules[ask[2]], Wind(Scaled(sc.subj), p), Wind(Scaled(sc.clip), p)) THEN (IF ask[3] THEN -1 ELSE 1) ELSE 0)
Ends == <>(phase = "done")
=============================================================================
