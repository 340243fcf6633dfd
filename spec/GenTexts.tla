------------------------------ MODULE GenTexts ------------------------------
(* One short and one mixed text per version and level: the contents of the     *)
(* pictures and format cases.                                                  *)
EXTENDS QRSymbol, Contents, Json
Out == IOEnv.OUT_DIR
Case(v, l, j) ==
  LET cap == DataCodewords(v, l)
      s == v * 90 + l * 17 + j * 7
      segs == TLCEval(ContentSegs(IF j = 0 THEN 4 ELSE 3, v, cap, s))
  IN [v |-> v, l |-> l, data |-> TLCEval(EncodeSegs(segs, v, cap)), text |-> TLCEval(TextOf(segs))]
VARIABLES cfg, ok
Init == cfg \in Versions \X Levels /\ ok = TRUE
Next == /\ cfg[1] > 0
        /\ \E v \in {cfg[1]}, l \in {cfg[2]} : \E cs \in {<<Case(v, l, 0), Case(v, l, 1)>>} :
             /\ JsonSerialize(Out \o "/text-" \o ToString(v) \o "-" \o ToString(l) \o ".json", cs)
             /\ ok' = \A i \in 1..2 : \E r \in {Read(cs[i].data, v)} : r.st = "done" /\ r.out = cs[i].text
        /\ cfg' = <<0 - cfg[1], cfg[2]>>
Spec == Init /\ [][Next]_<<cfg, ok>>
RoundTripHolds == ok
=============================================================================
