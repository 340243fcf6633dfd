------------------------------ MODULE GenClean ------------------------------
(* Undamaged symbols of every version and level with their text (C01), one     *)
(* file per version and level.                                                 *)
EXTENDS QRSymbol, Contents, Json

Out == IOEnv.OUT_DIR
PerConfig == IF Thorough THEN 14 ELSE 5

Case(v, l, j) ==
  LET cap == DataCodewords(v, l)
      s == v * 100 + l * 20 + j
      kind == (3 * l + v + 5 * j) % NumKinds
      segs == TLCEval(ContentSegs(kind, v, cap, s))
      data == TLCEval(EncodeSegs(segs, v, cap))
  IN [v |-> v, l |-> l, kind |-> kind, data |-> data, text |-> TLCEval(TextOf(segs)),
      nseg |-> Len(segs)]

\* the reading of the encoded content is the text (model-level round trip)
RoundTrip(c) == LET r == Read(c.data, c.v) IN r.st = "done" /\ r.out = c.text

VARIABLES cfg, ok
Init == cfg \in Versions \X Levels /\ ok = TRUE
Next == /\ cfg[1] > 0
        /\ LET cs == TLCEval([j \in 1..PerConfig |-> Case(cfg[1], cfg[2], j - 1)]) IN
           /\ JsonSerialize(Out \o "/clean-" \o ToString(cfg[1]) \o "-" \o ToString(cfg[2]) \o ".json", cs)
           /\ ok' = \A j \in 1..PerConfig : RoundTrip(cs[j])
        /\ cfg' = <<0 - cfg[1], cfg[2]>>
Spec == Init /\ [][Next]_<<cfg, ok>>
RoundTripHolds == ok
=============================================================================
