----------------------------- MODULE RegionGen ------------------------------
(* Scenes with probe points in; winding numbers and clearances out.         *)
EXTENDS Region, Json, IOUtils
CONSTANT Chunk
Scenes == ndJsonDeserialize(IOEnv.SCENES)
OutFile == IOEnv.OUT
VARIABLES ix, stage

Row(sc) ==
  [id |-> sc.id,
   probes |-> [i \in 1..Len(sc.probes) |->
      LET p == sc.probes[i]
          c == Min2(Clearance(sc.subj, p), Clearance(sc.clip, p))
      IN  IF c = 0 THEN <<p[1], p[2], 0, 0, 0>>
          ELSE <<p[1], p[2], c, Wind(sc.subj, p), Wind(sc.clip, p)>>]]

NChunks == (Len(Scenes) + Chunk - 1) \div Chunk
Init == ix \in 1..NChunks /\ stage = "scene"
Emit == /\ stage = "scene"
        /\ LET lo == (ix - 1) * Chunk + 1
               hi == Min2(ix * Chunk, Len(Scenes))
           IN  ndJsonSerialize(OutFile \o "/" \o ToString(ix) \o ".ndjson",
                               [i \in 1..(hi - lo + 1) |-> Row(Scenes[lo + i - 1])])
        /\ stage' = "done" /\ UNCHANGED ix
Next == Emit
Spec == Init /\ [][Next]_<<ix, stage>>
=============================================================================
