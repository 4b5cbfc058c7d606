------------------------------ MODULE MeshGen -------------------------------
(* Paths and shapes with styles and probe points in; verdicts out.          *)
EXTENDS Mesh, Json, IOUtils
CONSTANT Chunk
Scenes == ndJsonDeserialize(IOEnv.SCENES)
OutFile == IOEnv.OUT
VARIABLES ix, stage

Row(sc) == [id |-> sc.id, verdicts |-> IF sc.kind = "stroke" THEN Stroke(sc) ELSE Outline(sc)]

NChunks == (Len(Scenes) + Chunk - 1) \div Chunk
Init == ix \in 1..NChunks /\ stage = "scene"
Emit == /\ stage = "scene"
        /\ LET lo == (ix - 1) * Chunk + 1
               hi == Min2(ix * Chunk, Len(Scenes))
           IN  ndJsonSerialize(OutFile \o "/" \o ToString(ix) \o ".ndjson",
                               [i \in 1..(hi - lo + 1) |-> Row(Scenes[lo + i - 1])])
        /\ stage' = "done" /\ UNCHANGED ix
Next == Emit
Spec == Init /\ [][Next]_<<ix, stage>>
=============================================================================
