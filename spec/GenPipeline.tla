---------------------------- MODULE GenPipeline ----------------------------
(* Every sequence of fates up to a length, and some long ones, with location   *)
(* descriptions (repeated ones included).                                      *)
EXTENDS Pipeline, QRRand, Json, TLC, FiniteSets
Out == IOEnv.OUT_DIR
Full == IF Thorough THEN 6 ELSE 5
Seqs(n) == SetToSeq([1..n -> Fates])
F == <<"ok", "xfail", "xsaved", "dfail">>
\* every tenth is longer than what fits a byte
Long(s) == [i \in 1..(IF s % 10 = 0 THEN 250 + Rnd(s, 1, IF Thorough THEN 2000 ELSE 300) ELSE 6 + Rnd(s, 1, 60)) |->
               IF s % 4 = 1 THEN (IF Rnd(s, i + 2, 100) = 0 THEN "ok" ELSE F[2 + Rnd(s, i + 2, 3)])     \* hardly any good one
               ELSE IF s % 4 = 3 THEN (IF Rnd(s, i + 2, 100) = 0 THEN F[2 + Rnd(s, 2, 3)] ELSE "ok")
               ELSE F[1 + Rnd(s, i + 2, 4)]]
\* location numbers: some detectors report the same location more than once
Locs(f, s) == [i \in 1..Len(f) |-> IF Rnd(s, i, 3) = 0 THEN 1 ELSE 1 + Rnd(s + 1, i, 50)]
Case(f, s) == [fate |-> f, loc |-> Locs(f, s), src |-> 1 + Rnd(s, 99, 1000)]
VARIABLE n
Init == n \in 0..(Full + 1) /\ PInit /\ fate = <<>>
Next == /\ n >= 0
        /\ \E seqs \in {IF n <= Full THEN Seqs(n) ELSE [s \in 1..(IF Thorough THEN 400 ELSE 60) |-> Long(s)]} :
             JsonSerialize(Out \o "/pipeline-" \o ToString(n) \o ".json",
                           [i \in 1..Len(seqs) |-> Case(seqs[i], n * 1000 + i)])
        /\ n' = 0 - n - 1
        /\ UNCHANGED pvars
Spec == Init /\ [][Next]_<<n, pvars>>
=============================================================================
