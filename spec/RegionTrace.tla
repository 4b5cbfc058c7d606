---------------------------- MODULE RegionTrace -----------------------------
(* Traces recorded from the library: [id, subj, clip, fr, op, tol, probes,   *)
(* out].  The specification accepts a trace or says why it does not.         *)
EXTENDS Region, Json, IOUtils
CONSTANT Chunk
Traces == ndJsonDeserialize(IOEnv.TRACES)
OutFile == IOEnv.OUT
VARIABLES ix, stage

Far2(t, p) == Min2(Clearance(t.subj, p), Clearance(t.clip, p)) > t.tol
Wrong(t) ==
  LET cs == FlattenSeq(t.out)
      fr == FillRules[t.fr]  op == OverlayRules[t.op]
      bad == {i \in 1..Len(t.probes) :
                LET p == t.probes[i] IN
                Far2(t, p) /\ Wind(cs, p) # (IF Selected(fr, op, Wind(t.subj, p), Wind(t.clip, p)) THEN 1 ELSE 0)}
  IN  IF ~WellFormed(t.out) THEN <<"form">>
      ELSE IF bad # {} THEN <<"region", t.probes[CHOOSE i \in bad : TRUE]>>
      ELSE <<>>

NChunks == (Len(Traces) + Chunk - 1) \div Chunk
Init == ix \in 1..NChunks /\ stage = "trace"
Judge == /\ stage = "trace"
         /\ LET lo == (ix - 1) * Chunk + 1
                hi == Min2(ix * Chunk, Len(Traces))
                v == [i \in 1..(hi - lo + 1) |-> [id |-> Traces[lo + i - 1].id, wrong |-> Wrong(Traces[lo + i - 1])]]
            IN  ndJsonSerialize(OutFile \o "/" \o ToString(ix) \o ".ndjson", v)
         /\ stage' = "done" /\ UNCHANGED ix
Next == Judge
Spec == Init /\ [][Next]_<<ix, stage>>
=============================================================================
