----------------------------- MODULE BitReader -----------------------------
(* The bit reader (util::Chomp): a position in a byte string. A request is     *)
(* granted in full or refused without effect.                                  *)
EXTENDS Integers, Sequences, SequencesExt

Ops == {"chomp", "chomp_or", "chomp_or_u16"}
Limit(op) == IF op = "chomp_or_u16" THEN 16 ELSE 8     \* bits of the result type

Total(data) == 8 * Len(data)
\* bit number p (0-based, most significant first)
Bit(data, p) == (data[(p \div 8) + 1] \div 2 ^ (7 - (p % 8))) % 2
BitsAt(data, p, n) == FoldLeft(LAMBDA a, i : 2 * a + Bit(data, p + i - 1), 0, [i \in 1..n |-> i])

Granted(data, pos, op, n) == n >= 1 /\ n <= Limit(op) /\ pos + n <= Total(data)
\* <<granted, value, new position>>
Request(data, pos, op, n) ==
  IF Granted(data, pos, op, n) THEN <<1, BitsAt(data, pos, n), pos + n>> ELSE <<0, 0, pos>>
=============================================================================
