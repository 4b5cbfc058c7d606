------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* A program that uses the library: it fills overlays with contours and    *)
(* with earlier results, copies them, turns them into graphs, asks those   *)
(* as often as it likes, simplifies, slices and clips, in any order.       *)
(*                                                                         *)
(* Every answer is a function of what went into the object that was asked, *)
(* and of nothing else that happened before; and a result that goes in     *)
(* again counts as the region it stands for.  The second is the invariant  *)
(* Normal: what a result encloses, by its winding numbers at the probe     *)
(* points, is what the rules make of the regions it came from.             *)
(*                                                                         *)
(* A scene is a record [id, pool, probes, steps, dice]: contours whose     *)
(* edges cross in integral points, points to probe, the length of the      *)
(* behaviour, and (for one behaviour per scene) numbers that choose.       *)
(***************************************************************************)
EXTENDS Strings, Region, Json, IOUtils

Scenes == ndJsonDeserialize(IOEnv.SCENES)
Rolled == IOEnv.ORDER = "dice"
OutFile == IOEnv.OUT
SlotCount == IF Rolled THEN 3 ELSE 2
MaxEdges == IF Rolled THEN 36 ELSE 14

VARIABLES ix, slots, results, hist, stage
vars == <<ix, slots, results, hist, stage>>

sc == Scenes[ix]
Slot == 1..SlotCount
Probes == 1..Len(sc.probes)
EdgesOf(cs) == SumSeq([i \in 1..Len(cs) |-> Len(cs[i])])

Empty == [tag |-> "build", subj |-> <<>>, clip |-> <<>>, ws |-> [p \in Probes |-> 0], wc |-> [p \in Probes |-> 0], fill |-> 0, arr |-> <<>>]

\* a probe on an edge says nothing
Apart(s, p) == \A c \in Range(s.pool) : \A e \in Edges(c) : ~OnSeg(SegOf(e[1], e[2]), p)

Init == /\ ix \in 1..Len(Scenes)
        /\ slots = [s \in Slot |-> Empty]
        /\ results = <<>> /\ hist = <<>> /\ stage = "run"

-----------------------------------------------------------------------------
(* What can be done next, kind by kind.                                    *)

Fits(s, cs) == EdgesOf(slots[s].subj) + EdgesOf(slots[s].clip) + EdgesOf(cs) <= MaxEdges
Builds == {s \in Slot : slots[s].tag = "build"}
Filled == {s \in Builds : slots[s].subj # <<>> \/ slots[s].clip # <<>>}
Graphs == {s \in Slot : slots[s].tag = "graph"}
Fed == {r \in 1..Len(results) : results[r].cs # <<>>}
Rules(k) == IF Rolled THEN 1..k ELSE {1 + ((Len(hist) + ix) % k), 1 + ((Len(hist) + 2 + ix) % k)}

OpsOf(kind) ==
  CASE kind = "add"   -> {[op |-> kind, s |-> s, t |-> t, c |-> c] : s \in {x \in Builds : TRUE}, t \in 1..2, c \in 1..Len(sc.pool)}
    [] kind = "feed"  -> {[op |-> kind, s |-> s, t |-> t, r |-> r] : s \in Builds, t \in 1..2, r \in Fed}
    [] kind = "clone" -> {[op |-> kind, s |-> s, to |-> d] : s \in Filled, d \in {x \in Builds : x \notin Filled}}
    [] kind = "drop"  -> {[op |-> kind, s |-> s] : s \in Graphs}
    [] kind = "build" -> {[op |-> kind, s |-> s, fill |-> f] : s \in Filled, f \in Rules(4)}
    [] kind = "ask"   -> {[op |-> kind, s |-> s, rule |-> o, cw |-> d] : s \in Graphs, o \in Rules(7), d \in BOOLEAN}
    [] kind = "take"  -> {[op |-> kind, s |-> s, fill |-> f, rule |-> o, cw |-> d] : s \in Filled, f \in Rules(4), o \in Rules(7), d \in BOOLEAN}
    [] kind = "simplify" -> {[op |-> kind, r |-> r, fill |-> f, cw |-> d] : r \in Fed, f \in Rules(4), d \in BOOLEAN}
    [] kind = "slice" -> {[op |-> kind, r |-> r, fill |-> f, c |-> c] : r \in Fed, f \in Rules(4), c \in 1..Len(sc.pool)}
    [] kind = "clip"  -> {[op |-> kind, r |-> r, fill |-> f, c |-> c, invert |-> a, included |-> b] :
                            r \in Fed, f \in Rules(4), c \in 1..Len(sc.pool), a \in BOOLEAN, b \in BOOLEAN}

Possible(o) ==
  CASE o.op = "add"   -> Fits(o.s, <<sc.pool[o.c]>>)
    [] o.op = "feed"  -> Fits(o.s, results[o.r].cs)
    [] o.op = "slice" -> EdgesOf(results[o.r].cs) + Len(sc.pool[o.c]) <= MaxEdges
    [] o.op = "clip"  -> EdgesOf(results[o.r].cs) + Len(sc.pool[o.c]) <= MaxEdges
    [] o.op = "simplify" -> EdgesOf(results[o.r].cs) <= MaxEdges
    [] OTHER -> TRUE

Kinds == <<"add", "add", "add", "feed", "feed", "feed", "clone", "build", "build", "ask", "ask", "ask", "take", "take", "simplify", "slice", "clip", "drop">>
AnyOps == UNION {{o \in OpsOf(k) : Possible(o)} : k \in Range(Kinds)}

\* the op that the numbers of the scene choose
Chosen ==
  LET n == Len(hist)
      able == SelectSeq(Kinds, LAMBDA k : \E o \in OpsOf(k) : Possible(o))
      kind == able[1 + (sc.dice[2 * n + 1] % Len(able))]
      ops == SetToSeq({o \in OpsOf(kind) : Possible(o)})
  IN  ops[1 + (sc.dice[2 * n + 2] % Len(ops))]

-----------------------------------------------------------------------------
(* What it does.                                                           *)

Rev(cs) == [i \in 1..Len(cs) |-> Reverse(cs[i])]
Flat(S) == FlattenSeq([i \in 1..Len(S) |-> <<S[i][1]>> \o SetToSeq(S[i][2])])
LinesOf(c) == LET ok == {i \in 1..Len(c) : c[i] # Nxt(c, i)} IN [i \in 1..Cardinality(ok) |-> LET j == SetToSortSeq(ok, <)[i] IN <<c[j], Nxt(c, j)>>]
ShapeJson(S) == SetToSeq({ <<s[1]>> \o SetToSeq(s[2]) : s \in S })

Put(s, t, cs, w) ==
  LET x == slots[s] IN
  IF t = 1 THEN [x EXCEPT !.subj = @ \o cs, !.ws = [p \in Probes |-> @[p] + w[p]]]
           ELSE [x EXCEPT !.clip = @ \o cs, !.wc = [p \in Probes |-> @[p] + w[p]]]

\* the least area a contour must have to stay: none, what one of the contours has, or a bit more
LeastArea(S) ==
  LET areas == SetToSortSeq({Abs(Area2(c)) \div 2 : c \in UNION {{s[1]} \cup s[2] : s \in S}}, <)
      n == Len(hist) + ix
      k == (n \div 3) % (Len(areas) + 1)
  IN  IF n % 3 = 0 \/ k = 0 THEN 0 ELSE areas[k] + (IF n % 3 = 1 THEN 0 ELSE 1)

\* the boundary U as a result: in all ways it may come apart; [row for the log, contours]
Answer(U, cw, in) ==
  LET all == SetToSeq(Shapes(U, cw, 0))
      area == IF Pinched(U) THEN 0 ELSE LeastArea(all[1])
      ways == IF area = 0 THEN all ELSE SetToSeq(Shapes(U, cw, area))
      cs == Flat(SetToSeq(ways[1]))
      sign == IF cw THEN -1 ELSE 1
  IN  [row |-> [pinched |-> Pinched(U), area |-> area, ways |-> [i \in 1..Len(ways) |-> ShapeJson(ways[i])]],
       res |-> [cs |-> cs, in |-> IF area = 0 THEN in ELSE [p \in Probes |-> Wind(cs, sc.probes[p]) # 0], sign |-> sign]]

Log(o, row) == hist' = Append(hist, o @@ row)
Gives(o, a) == results' = Append(results, a.res) /\ Log(o, a.row)

Do(o) ==
  CASE o.op = "add" ->
         /\ slots' = [slots EXCEPT ![o.s] = Put(o.s, o.t, <<sc.pool[o.c]>>, [p \in Probes |-> Wind(<<sc.pool[o.c]>>, sc.probes[p])])]
         /\ Log(o, <<>>) /\ UNCHANGED results
    [] o.op = "feed" ->
         LET r == results[o.r] IN
         /\ slots' = [slots EXCEPT ![o.s] = Put(o.s, o.t, r.cs, [p \in Probes |-> IF r.in[p] THEN r.sign ELSE 0])]
         /\ Log(o, <<>>) /\ UNCHANGED results
    [] o.op = "clone" -> slots' = [slots EXCEPT ![o.to] = slots[o.s]] /\ Log(o, <<>>) /\ UNCHANGED results
    [] o.op = "drop" -> slots' = [slots EXCEPT ![o.s] = Empty] /\ Log(o, <<>>) /\ UNCHANGED results
    [] o.op = "build" ->
         LET x == slots[o.s] IN
         /\ slots' = [slots EXCEPT ![o.s] = [x EXCEPT !.tag = "graph", !.fill = o.fill, !.arr = Arrange([k |-> 1, subj |-> x.subj, clip |-> x.clip])]]
         /\ Log(o, <<>>) /\ UNCHANGED results
    [] o.op = "ask" ->
         LET x == slots[o.s]  fr == FillRules[x.fill]  rule == OverlayRules[o.rule] IN
         /\ Gives(o, Answer(Boundary(x.arr, fr, rule), o.cw, [p \in Probes |-> Selected(fr, rule, x.ws[p], x.wc[p])]))
         /\ UNCHANGED slots
    [] o.op = "take" ->
         LET x == slots[o.s]  fr == FillRules[o.fill]  rule == OverlayRules[o.rule] IN
         /\ Gives(o, Answer(Boundary(Arrange([k |-> 1, subj |-> x.subj, clip |-> x.clip]), fr, rule), o.cw,
                            [p \in Probes |-> Selected(fr, rule, x.ws[p], x.wc[p])]))
         /\ slots' = [slots EXCEPT ![o.s] = Empty]
    [] o.op = "simplify" ->
         LET r == results[o.r]  fr == FillRules[o.fill] IN
         /\ Gives(o, Answer(Boundary(Arrange([k |-> 1, subj |-> r.cs, clip |-> <<>>]), fr, "Subject"), o.cw,
                            [p \in Probes |-> Inside(fr, IF r.in[p] THEN r.sign ELSE 0)]))
         /\ UNCHANGED slots
    [] o.op = "slice" ->
         LET r == results[o.r]  fr == FillRules[o.fill]
             S == SetToSeq(Slices(ArrangeS([k |-> 1, subj |-> r.cs, lines |-> LinesOf(sc.pool[o.c])]), fr))
         IN  /\ results' = Append(results, [cs |-> Flat(S), sign |-> 1, in |-> [p \in Probes |-> Inside(fr, IF r.in[p] THEN r.sign ELSE 0)]])
             /\ Log(o, [pinched |-> FALSE, ways |-> <<ShapeJson(Range(S))>>])
             /\ UNCHANGED slots
    [] o.op = "clip" ->
         LET r == results[o.r]
             E == SetToSeq(Clipped(ArrangeS([k |-> 1, subj |-> r.cs, lines |-> LinesOf(sc.pool[o.c])]), FillRules[o.fill], o.invert, o.included))
         IN  /\ Log(o, [pieces |-> [i \in 1..Len(E) |-> <<E[i][1][1], E[i][1][2], E[i][2][1], E[i][2][2]>>]])
             /\ UNCHANGED <<slots, results>>

Step == /\ stage = "run" /\ Len(hist) < sc.steps
        /\ IF Rolled THEN Do(Chosen) ELSE \E o \in AnyOps : Do(o)
        /\ UNCHANGED <<ix, stage>>
Finish == /\ stage = "run" /\ Len(hist) = sc.steps
          /\ IF Rolled THEN ndJsonSerialize(OutFile \o "/" \o ToString(ix) \o ".ndjson", <<[id |-> sc.id, hist |-> hist]>>) ELSE TRUE
          /\ stage' = "done" /\ UNCHANGED <<ix, slots, results, hist>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* a result encloses what the rules make of the regions it came from (less what is too small), once
Normal == results = <<>> \/
  LET r == results[Len(results)] IN
  \A p \in Probes : Apart(sc, sc.probes[p]) => Wind(r.cs, sc.probes[p]) = (IF r.in[p] THEN r.sign ELSE 0)
\* so do the contents of every overlay
Content == \A s \in Slot : \A p \in Probes : Apart(sc, sc.probes[p]) =>
  /\ slots[s].ws[p] = Wind(slots[s].subj, sc.probes[p])
  /\ slots[s].wc[p] = Wind(slots[s].clip, sc.probes[p])
\* asking changes nothing but the list of results
Untouched == [][hist' # hist /\ hist'[Len(hist')].op \in {"ask", "simplify", "slice", "clip"} => slots' = slots]_vars
Keeps == [][\A i \in 1..Len(results) : results'[i] = results[i]]_vars
=============================================================================
