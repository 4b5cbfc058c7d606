----------------------------- MODULE OverlayGen -----------------------------
(* Scenes in, behaviours out: the arrangement, the boundary under every     *)
(* rule, and the shapes, as the specification computes them.                *)
EXTENDS Overlay, Json, IOUtils
CONSTANT Chunk
Scenes == ndJsonDeserialize(IOEnv.SCENES)
OutFile == IOEnv.OUT
WithShapes == IOEnv.SHAPES = "1"

VARIABLES ix, stage

Bit(b, i) == IF b THEN 2 ^ (i - 1) ELSE 0
Mask(arr, e, fr, up) ==
  SumSeq([i \in 1..7 |-> LET A == Above(fr, OverlayRules[i], arr[e])
                            B == Below(fr, OverlayRules[i], arr[e])
                        IN  IF up THEN Bit(A /\ ~B, i) ELSE Bit(B /\ ~A, i)])

\* subject above 1, below 2; clip above 4, below 8
FillBits(fr, w) == (IF Inside(fr, w[3]) THEN 1 ELSE 0) + (IF Inside(fr, w[1]) THEN 2 ELSE 0)
                 + (IF Inside(fr, w[4]) THEN 4 ELSE 0) + (IF Inside(fr, w[2]) THEN 8 ELSE 0)

ShapeJson(S) == SetToSeq({ <<s[1]>> \o SetToSeq(s[2]) : s \in S })
WaysJson(W) == SetToSeq({ ShapeJson(S) : S \in W })

Row(sc) ==
  LET arr == Arrange(sc)
      es == SetToSeq(DOMAIN arr)
      bd == TLCEval([f \in 1..4 |-> [o \in 1..7 |-> Boundary(arr, FillRules[f], OverlayRules[o])]])
  IN  [id |-> sc.id,
       edges |-> [i \in 1..Len(es) |->
          << es[i][1][1], es[i][1][2], es[i][2][1], es[i][2][2],
             [f \in 1..4 |-> << Mask(arr, es[i], FillRules[f], TRUE), Mask(arr, es[i], FillRules[f], FALSE),
                               FillBits(FillRules[f], arr[es[i]]) >>] >>],
       shapes |-> IF WithShapes
                  THEN [f \in 1..4 |-> [o \in 1..7 |->
                         LET p == Pinched(bd[f][o]) IN
                         << p, WaysJson(Shapes(bd[f][o], FALSE, 0)),
                            IF p THEN WaysJson(Shapes(bd[f][o], TRUE, 0)) ELSE <<>> >> ]]
                  ELSE <<>>]

NChunks == (Len(Scenes) + Chunk - 1) \div Chunk
Init == ix \in 1..NChunks /\ stage = "scene"
Emit == /\ stage = "scene"
        /\ LET lo == (ix - 1) * Chunk + 1
               hi == Min2(ix * Chunk, Len(Scenes))
           IN  ndJsonSerialize(OutFile \o "/" \o ToString(ix) \o ".ndjson",
                               [i \in 1..(hi - lo + 1) |-> Row(Scenes[lo + i - 1])])
        /\ stage' = "done" /\ UNCHANGED ix
Next == Emit
Spec == Init /\ [][Next]_<<ix, stage>>
=============================================================================
