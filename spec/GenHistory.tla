----------------------------- MODULE GenHistory -----------------------------
(* Histories of calls over the pictures of Pool. A step <<who, what, picture>> *)
(* is a call on one of two sets of components. In a parallel history the steps *)
(* are dealt to threads.                                                       *)
EXTENDS Pool, QRRand, Json, SequencesExt
Out == IOEnv.OUT_DIR
Whats == <<"plain", "info", "prepare", "detect", "extract", "read", "readinfo">>
Parts == <<"prepare", "detect", "extract", "read", "readinfo">>
H(name, par, steps) == [name |-> name, par |-> par, steps |-> steps]
\* every picture directly before and after every other one, also itself
Pairs(a) == H("pairs-" \o ToString(a), FALSE,
  [k \in 1..(4 * Count) |-> <<1, IF (k % 4) < 2 THEN "plain" ELSE "info", IF k % 2 = 1 THEN a ELSE 1 + ((k - 1) \div 4)>>])
\* the stages called directly, alternating between two pictures of the same size
PartPairs(a) == H("parts-" \o ToString(a), FALSE,
  [k \in 1..(10 * 20) |-> <<1, Parts[1 + (((k - 1) \div 2) % 5)], IF k % 2 = 1 THEN a ELSE 1 + ((k - 1) \div 10)>>])
Random(i) == LET n == 30 + Rnd(i, 1, 60)
                 few == 2 + Rnd(i, 2, 6)
                 pic(k) == IF i % 2 = 0 THEN 1 + Rnd(i, 3 * k, Count) ELSE 1 + Rnd(i, 200 + Rnd(i, 3 * k, few), 20)
  IN H("random-" \o ToString(i), FALSE, [k \in 1..n |-> <<1 + Rnd(i, 3 * k + 1, 2), Whats[1 + Rnd(i, 3 * k + 2, 7)], pic(k)>>])
Parallel(i) == [Random(i + 5000) EXCEPT !.par = TRUE, !.name = "parallel-" \o ToString(i)]
\* the same picture over and over
Again(i) == H("again-" \o ToString(i), FALSE, [k \in 1..24 |-> <<1, IF k % 3 = 0 THEN "info" ELSE "plain", 1 + ((i * 7) % Count)>>])
N == IF Thorough THEN 600 ELSE 60
VARIABLE n
Init == n \in 0..6
Write(name, x) == JsonSerialize(Out \o "/" \o name \o ".json", x)
Next == /\ n >= 0
        /\ CASE n = 0 -> \E ps \in {Pictures} : /\ Len(ps) = Count /\ \A i \in Same : ps[i].w = 132 /\ ps[i].h = 132
                                          /\ Write("pool", [i \in 1..Count |-> [name |-> "pool-" \o ToString(i)] @@ ps[i]])
             [] n = 1 -> Write("schedules-1", [a \in 1..Count |-> Pairs(a)])
             [] n = 2 -> Write("schedules-2", [a \in 1..20 |-> PartPairs(a)])
             [] n = 3 -> Write("schedules-3", [i \in 1..N |-> Random(i)])
             [] n = 4 -> Write("schedules-4", [i \in 1..(N \div 2) |-> Parallel(i)])
             \* without those that give very many locations (every one of them writes debug images)
             [] n = 6 -> \E ps \in {Pictures} : Write("light", SelectSeq([i \in 1..Count |-> [name |-> "pool-" \o ToString(i)] @@ ps[i]],
                                                  LAMBDA q : q.name \notin {"pool-28", "pool-34", "pool-37"}))
             [] n = 5 -> Write("schedules-5", [i \in 1..Count |-> Again(i)])
        /\ n' = 0 - 1 - n
Spec == Init /\ [][Next]_n
=============================================================================
