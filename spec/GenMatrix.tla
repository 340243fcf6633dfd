----------------------------- MODULE GenMatrix -----------------------------
(* Complete module matrices computed here, for the self check of the harness   *)
(* (which assembles symbols from the exported tables).                         *)
EXTENDS QRSymbol, QRRand, Json
Out == IOEnv.OUT_DIR
Vs == IF Thorough THEN {1, 2, 5, 6, 7, 9, 10, 14, 21, 27} ELSE {1, 2, 7, 14}
Rec(v, l) ==
  LET data == [i \in 1..DataCodewords(v, l) |-> Rnd(v * 10 + l, i, 256)]
      m == Rnd(v, l, 8)
  IN [v |-> v, l |-> l, mask |-> m, data |-> data, modules |-> Modules(v, l, m, data)]
VARIABLE c
Init == c \in Vs \X Levels
Next == /\ c[1] > 0
        /\ JsonSerialize(Out \o "/m" \o ToString(c[1]) \o "-" \o ToString(c[2]) \o ".json", Rec(c[1], c[2]))
        /\ c' = <<0 - c[1], c[2]>>
Spec == Init /\ [][Next]_c
=============================================================================
