----------------------------- MODULE GenFormat -----------------------------
(* The reading of every 15-bit format word: the format within three bits, or   *)
(* none; and the closest formats of words beyond repair (C04).                 *)
EXTENDS QRStd, QRReedSolomon, QRRand, Json

Out == IOEnv.OUT_DIR
\* concrete sequences (folds), so that TLC evaluates them once
Pop == FoldLeft(LAMBDA a, b : Append(a, BitCount(b - 1)), <<>>, [b \in 1..256 |-> b])
Distance(a, b) == LET x == BXor(a, b) IN Pop[(x % 256) + 1] + Pop[(x \div 256) + 1]

\* format f = 8 * (level - 1) + mask + 1
Words == FoldLeft(LAMBDA a, f : Append(a, FormatWord(((f - 1) \div 8) + 1, (f - 1) % 8)),
                  <<>>, [f \in 1..32 |-> f])
Ds(w) == FoldLeft(LAMBDA a, f : Append(a, Distance(w, Words[f])), <<>>, [f \in 1..32 |-> f])
\* <<closest format, its distance, number of formats within three bits>>
Closest(w) ==
  LET ds == TLCEval(Ds(w))
      best == FoldLeft(LAMBDA a, f : IF ds[f] < ds[a] THEN f ELSE a, 1, [f \in 1..32 |-> f])
  IN <<best, ds[best], Cardinality({f \in 1..32 : ds[f] <= 3})>>

Chunk == 256
VARIABLES part, ok
Init == part \in 1..(32768 \div Chunk) /\ ok = TRUE
Next == /\ part > 0
        \* (a bound variable is evaluated once, a LET definition at every use)
        /\ \E lo \in {(part - 1) * Chunk} :
           \E c \in {[i \in 1..Chunk |-> Closest(lo + i - 1)]} :
              /\ JsonSerialize(Out \o "/fmt-" \o ToString(part - 1) \o ".json", c)
              \* the reading is unique
              /\ ok' = \A i \in 1..Chunk : (c[i][2] <= 3) <=> (c[i][3] = 1)
        /\ part' = 0 - part
Spec == Init /\ [][Next]_<<part, ok>>
UniqueReading == ok
=============================================================================
