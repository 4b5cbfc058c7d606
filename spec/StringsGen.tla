----------------------------- MODULE StringsGen -----------------------------
(* Line scenes in, clipped pieces and slices out.                           *)
EXTENDS Strings, Json, IOUtils
CONSTANT Chunk
Scenes == ndJsonDeserialize(IOEnv.SCENES)
OutFile == IOEnv.OUT
VARIABLES ix, stage

ShapeJson(S) == SetToSeq({ <<s[1]>> \o SetToSeq(s[2]) : s \in S })
Modes == << <<FALSE, FALSE>>, <<FALSE, TRUE>>, <<TRUE, FALSE>>, <<TRUE, TRUE>> >>

Row(sc) ==
  LET arr == ArrangeS(sc)
  IN  [id |-> sc.id,
       clipped |-> [f \in 1..4 |-> [m \in 1..4 |->
           LET es == SetToSeq(Clipped(arr, FillRules[f], Modes[m][1], Modes[m][2]))
           IN  [i \in 1..Len(es) |-> <<es[i][1][1], es[i][1][2], es[i][2][1], es[i][2][2]>>]]],
       slices |-> [f \in 1..4 |-> ShapeJson(Slices(arr, FillRules[f]))]]

NChunks == (Len(Scenes) + Chunk - 1) \div Chunk
Init == ix \in 1..NChunks /\ stage = "scene"
Emit == /\ stage = "scene"
        /\ LET lo == (ix - 1) * Chunk + 1
               hi == Min2(ix * Chunk, Len(Scenes))
           IN  ndJsonSerialize(OutFile \o "/" \o ToString(ix) \o ".ndjson",
                               [i \in 1..(hi - lo + 1) |-> Row(Scenes[lo + i - 1])])
        /\ stage' = "done" /\ UNCHANGED ix
Next == Emit
Spec == Init /\ [][Next]_<<ix, stage>>
=============================================================================
