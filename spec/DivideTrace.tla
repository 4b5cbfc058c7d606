---------------------------- MODULE DivideTrace -----------------------------
(* Traces recorded from the library: [id, c, none, out].                     *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
CONSTANT Chunk
D == INSTANCE Divide WITH Alphabet <- {}, MaxLen <- 0, c <- 0, at <- 0, stack <- 0, loops <- 0
Traces == ndJsonDeserialize(IOEnv.TRACES)
OutFile == IOEnv.OUT
VARIABLES ix, stage

Wrong(t) == IF D!DivideRight(t.c, t.none, t.out) THEN <<>> ELSE <<"division">>
NChunks == (Len(Traces) + Chunk - 1) \div Chunk
Init == ix \in 1..NChunks /\ stage = "trace"
Judge == /\ stage = "trace"
         /\ LET lo == (ix - 1) * Chunk + 1
                hi == IF ix * Chunk < Len(Traces) THEN ix * Chunk ELSE Len(Traces)
                v == [i \in 1..(hi - lo + 1) |-> [id |-> Traces[lo + i - 1].id, wrong |-> Wrong(Traces[lo + i - 1])]]
            IN  ndJsonSerialize(OutFile \o "/" \o ToString(ix) \o ".ndjson", v)
         /\ stage' = "done" /\ UNCHANGED ix
Next == Judge
Spec == Init /\ [][Next]_<<ix, stage>>
=============================================================================
