----------------------------- MODULE GenBuilder -----------------------------
(* All sequences of setter calls up to a length, from each start.              *)
EXTENDS Builder, QRRand, Json, TLC, FiniteSets
Out == IOEnv.OUT_DIR
Sets == Slots \X {1, 2}
Depth(start) == IF start = "new" THEN (IF Thorough THEN 6 ELSE 5) ELSE (IF Thorough THEN 4 ELSE 3)
SlotSeq == <<"prepare", "detect", "qr">>
Long(start, s) == [i \in 1..(8 + Rnd(s, 0, 12)) |-> <<SlotSeq[1 + Rnd(s, i, 3)], 1 + Rnd(s + 7, i, 9)>>]
VARIABLE job
Init == job \in {<<st, d>> \in Starts \X (0..7) : d <= Depth(st) \/ d = 7}
        /\ slot = <<>> /\ built = "no"
Next == /\ job[2] >= 0
        /\ \E st \in {job[1]}, d \in {job[2]} :
           \E seqs \in {IF d < 7 THEN SetToSeq([1..d -> Sets]) ELSE [s \in 1..40 |-> Long(st, s)]} :
             JsonSerialize(Out \o "/builder-" \o st \o "-" \o ToString(d) \o ".json",
                           [i \in 1..Len(seqs) |-> [start |-> st, sets |-> seqs[i]]])
        /\ job' = <<job[1], 0 - job[2] - 1>> /\ UNCHANGED bvars
Spec == Init /\ [][Next]_<<job, bvars>>
=============================================================================
