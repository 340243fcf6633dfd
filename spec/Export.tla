------------------------------- MODULE Export -------------------------------
(* Writes the tables of QRStd the conformance harness interprets: TLC computes *)
(* them, the harness contains no QR tables of its own.                          *)
EXTENDS QRStd, Json, IOUtils, SequencesExt, QRReedSolomon

Dir == IOEnv.EXPORT_DIR

VersionRec(v) ==
  LET s == Side(v)
      cs == TLCEval(AlignCentres(v))
  IN [ version |-> v, side |-> s,
       order |-> DataOrder(v),
       dark |-> [k \in 1..(s * s) |->
                   LET x == (k - 1) % s  y == (k - 1) \div s IN
                   IF IsFunction(v, cs, x, y) THEN (IF FunctionDark(v, cs, x, y) THEN 1 ELSE 0)
                   ELSE 2],
       fmt1 |-> [i \in 1..15 |-> Fmt1(v, i - 1)],
       fmt2 |-> [i \in 1..15 |-> Fmt2(v, i - 1)],
       levels |-> [l \in 1..4 |->
          [ ec |-> Ec(v, l), cap |-> Cap(v, l), blocks |-> NB(v, l), shorts |-> NumShort(v, l),
            total |-> [b \in 1..NB(v, l) |-> BlockTotal(v, l, b)],
            data |-> [b \in 1..NB(v, l) |-> BlockData(v, l, b)],
            interleave |-> InterleaveOrder(v, l) ]] ]

Common == 
  [ exp |-> EXP, log |-> LOG,
    gen |-> [n \in 1..30 |-> Generator(n)],
    masks |-> [m \in 1..8 |-> [k \in 1..144 |-> MaskBit(m - 1, (k - 1) % 12, (k - 1) \div 12)]],
    formats |-> [l \in 1..4 |-> [m \in 1..8 |-> FormatWord(l, m - 1)]] ]

VARIABLE v
Init == v \in Versions
Next == /\ v > 0
        /\ JsonSerialize(Dir \o "/v" \o ToString(v) \o ".json", VersionRec(v))
        /\ v' = 0 - v
Spec == Init /\ [][Next]_v
ASSUME JsonSerialize(Dir \o "/common.json", Common)
=============================================================================
