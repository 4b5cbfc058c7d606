---------------------------- MODULE VectorTrace -----------------------------
(* Vectors recorded from the library: [id, subj, clip, fr, op, tol, probes, *)
(* cuts, rungs, net, out].  The specification accepts them or says why not. *)
EXTENDS Net, Json, IOUtils
CONSTANT Chunk
Traces == ndJsonDeserialize(IOEnv.TRACES)
OutFile == IOEnv.OUT
VARIABLES ix, stage

Far2(t, p) == Min2(Clearance(t.subj, p), Clearance(t.clip, p)) > t.tol
Wrong(t) ==
  LET fr == FillRules[t.fr]  op == OverlayRules[t.op]
      net == [i \in 1..Len(t.net) |-> Upward(t.net[i])]
      side == [i \in 1..Len(t.net) |-> Mirror(t.net[i])]
      paths == FlattenSeq(t.out)
      outline == [i \in 1..Len(t.out) |-> [j \in 1..Len(t.out[i]) |-> Reverse(Corners(t.out[i][j]))]]
      flat == FlattenSeq(outline)
      far == {i \in 1..Len(t.probes) : Far2(t, t.probes[i])}
      truth(p) == <<Inside(fr, Wind(t.subj, p)), Inside(fr, Wind(t.clip, p))>>
      bad == {i \in far :
                LET p == t.probes[i]  w == truth(p)
                IN  AtPoint(net, p) # w \/ Wind(flat, p) # (IF Rule(op, w[1], w[2]) THEN 1 ELSE 0)}
  IN  IF ~Whole(net) THEN <<"torn">>
      ELSE IF \E i \in 1..Len(t.cuts) : ~Fits(net, t.cuts[i]) THEN <<"sides, upright">>
      ELSE IF \E i \in 1..Len(t.rungs) : ~Fits(side, t.rungs[i]) THEN <<"sides, level">>
      ELSE IF \E i \in 1..Len(paths) : ~OutlineOk(net, paths[i], op) THEN <<"outline">>
      ELSE IF Total(FlattenSeq(paths)) # Total(Border(net, op)) THEN <<"border">>
      ELSE IF ~WellFormed(outline) THEN <<"form">>
      ELSE IF bad # {} THEN <<"region", t.probes[CHOOSE i \in bad : TRUE]>>
      ELSE <<>>

NChunks == (Len(Traces) + Chunk - 1) \div Chunk
Init == ix \in 1..NChunks /\ stage = "trace"
Judge == /\ stage = "trace"
         /\ LET lo == (ix - 1) * Chunk + 1
                hi == Min2(ix * Chunk, Len(Traces))
                v == [i \in 1..(hi - lo + 1) |-> [id |-> Traces[lo + i - 1].id, wrong |-> Wrong(Traces[lo + i - 1])]]
            IN  ndJsonSerialize(OutFile \o "/" \o ToString(ix) \o ".ndjson", v)
         /\ stage' = "done" /\ UNCHANGED ix
Next == Judge
Spec == Init /\ [][Next]_<<ix, stage>>
=============================================================================
