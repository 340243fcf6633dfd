--------------------------- MODULE GenContainers ---------------------------
(* Representations for the pictures of Pool, and the colour table.             *)
EXTENDS Containers, QRRand, Json, SequencesExt
Out == IOEnv.OUT_DIR
Kinds == <<"rgba", "dynamic", "view", "viewview", "dynview", "custom", "flat", "rgb8", "luma8", "lumaa8", "rgba16", "luma16", "mutview">>
Alphas == <<"opaque", "clear", "random", "checker", "half">>
Arounds == <<"white", "black", "noise", "code", "finder">>
Rep(i) ==
  [kind |-> Kinds[1 + (i % Len(Kinds))],
   dx |-> IF i % 7 = 0 THEN 0 ELSE Rnd(i, 1, 40), dy |-> IF i % 5 = 0 THEN 0 ELSE Rnd(i, 2, 40),
   right |-> IF i % 3 = 0 THEN 0 ELSE Rnd(i, 3, 40), below |-> IF i % 4 = 0 THEN 0 ELSE Rnd(i, 4, 40),
   alpha |-> Alphas[1 + ((i \div 2) % 5)], around |-> Arounds[1 + Rnd(i, 5, 5)], mixed |-> Rnd(i, 6, 2), seed |-> i]
N == IF Thorough THEN 13 * 24 ELSE 13 * 5
VARIABLE n
Init == n \in 0..1
Next == /\ n >= 0
        /\ CASE n = 0 -> JsonSerialize(Out \o "/colours.json", [g \in 1..256 |-> Colours(g - 1)])
             [] n = 1 -> JsonSerialize(Out \o "/reps.json", [i \in 1..N |-> Rep(i)])
        /\ n' = 0 - 1 - n
Spec == Init /\ [][Next]_n
=============================================================================
