------------------------------- MODULE StdMC -------------------------------
(* Consistency of the symbol structure: one state per version and level.       *)
EXTENDS QRSymbol

VARIABLES v, l, done
vars == <<v, l, done>>
Init == v \in Versions /\ l \in Levels /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<v, l>>
Spec == Init /\ [][Next]_vars

\* the walk visits every data module exactly once
WalkIsExact ==
  (done /\ l = 1) =>
    LET o == TLCEval(DataOrder(v)) IN
    /\ Len(o) = RawModules(v)
    /\ Cardinality({o[k] : k \in 1..Len(o)}) = Len(o)
    /\ \A k \in 1..Len(o) : o[k] >= 0 /\ o[k] < Side(v) * Side(v)
\* ... and nothing of a format word
FormatOutsideData ==
  (done /\ l = 1) =>
    LET o == TLCEval(DataOrder(v))
        f == {Fmt1(v, i) : i \in 0..14} \cup {Fmt2(v, i) : i \in 0..14}
    IN /\ Cardinality(f) = 30
       /\ \A k \in 1..Len(o) : o[k] \notin f
\* blocks partition the codewords; interleaving is a bijection onto them
BlocksPartition ==
  done =>
    LET nb == NB(v, l)
        o == TLCEval(InterleaveOrder(v, l))
        RECURSIVE T(_)
        T(b) == IF b = 0 THEN 0 ELSE BlockTotal(v, l, b) + T(b - 1)
    IN /\ T(nb) = TotalCodewords(v)
       /\ Len(o) = TotalCodewords(v)
       /\ Cardinality({o[k] : k \in 1..Len(o)}) = Len(o)
       /\ \A k \in 1..Len(o) : o[k][1] \in 1..nb /\ o[k][2] \in 1..BlockTotal(v, l, o[k][1])
       /\ Offset(v, l, nb) + BlockData(v, l, nb) = DataCodewords(v, l)
       /\ \A b \in 1..nb : BlockTotal(v, l, b) <= 255 /\ BlockData(v, l, b) > 0
\* twice the capacity plus the reserve fits into the parity
CapacityFits == done => 2 * Cap(v, l) + Reserved(v, l) <= Ec(v, l) /\ Cap(v, l) >= 1
\* more correction never leaves more room for data
LevelsOrdered == done => (l < 4 => DataCodewords(v, l) > DataCodewords(v, l + 1))
VersionsGrow == done => (v < 40 => DataCodewords(v, l) < DataCodewords(v + 1, l))
\* format words are at least seven bits apart
FormatDistance ==
  (done /\ v = 1) =>
    \A m \in Masks, l2 \in Levels, m2 \in Masks :
      <<l, m>> # <<l2, m2>> =>
        LET x == BXor(FormatWord(l, m), FormatWord(l2, m2)) IN
        BitCount(x % 256) + BitCount(x \div 256) >= 7
\* parity makes codewords, and a generator has all its roots
ParityIsCodeword ==
  (done /\ v <= 6) =>
    LET d == [i \in 1..BlockData(v, l, 1) |-> (i * 37 + v * 11 + l) % 256]
    IN IsCodeword(d \o Parity(d, Generators[Ec(v, l)]), Ec(v, l))
=============================================================================
