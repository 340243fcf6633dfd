------------------------------ MODULE Contents ------------------------------
(* Pseudo-random symbol contents: segment sequences that fit a given number of *)
(* data codewords, covering all modes, character sets and ways to end.         *)
EXTENDS Integers, Sequences, SequencesExt, Segments, QRRand

Digits(s, n) == [i \in 1..n |-> Rnd(s, i, 10)]
AlnVals(s, n) == [i \in 1..n |-> Rnd(s, i, 45)]
Ascii(s, n) == [i \in 1..n |-> 32 + Rnd(s, i, 95)]
\* any byte but C3, in runs of high and low values
HighBytes(s, n) == [i \in 1..n |-> LET b == Rnd(s, i, 256) IN IF b = 195 THEN 196 ELSE b]
\* UTF-8 with at least one C3: units of four bytes, ASCII tail
Unit(s, k) ==
  LET c == IF k = 1 THEN 1 ELSE Rnd(s, k, 6)
      a(j) == 32 + Rnd(s + j, k, 95)
      x == 128 + Rnd(s + 9, k, 64)
  IN CASE c = 0 -> <<a(1), a(2), a(3), a(4)>>
       [] c = 1 -> <<195, x, a(1), a(2)>>
       [] c = 2 -> <<a(1), 195, x, a(2)>>
       [] c = 3 -> <<226, 130, 172, a(1)>>
       [] c = 4 -> <<240, 159, 152, x>>
       [] c = 5 -> <<206, x, 195, 169>>
Utf8(s, n) ==
  FoldLeft(LAMBDA acc, k : acc \o Unit(s, k), <<>>, [k \in 1..(n \div 4) |-> k])
     \o [i \in 1..(n % 4) |-> 65 + i]

\* plain text with a single two-byte character, anywhere
OneC3(s, n) ==
  LET at == IF n < 2 THEN 0 ELSE 1 + Rnd(s, 78, n - 1) IN
  [i \in 1..n |-> IF i = at THEN 195 ELSE IF at > 0 /\ i = at + 1 THEN 128 + Rnd(s, 79, 64) ELSE 32 + Rnd(s, i, 95)]

CharsOf(mode, style, s, n) ==
  CASE mode = NUM -> Digits(s, n)
    [] mode = ALN -> AlnVals(s, n)
    [] mode = BYT /\ style = 0 -> Ascii(s, n)
    [] mode = BYT /\ style = 1 -> HighBytes(s, n)
    [] mode = BYT /\ style = 2 -> Utf8(s, n)
    [] mode = BYT /\ style = 3 -> OneC3(s, n)
Seg(mode, style, s, n) == [mode |-> mode, chars |-> CharsOf(mode, style, s, n)]

\* a sequence of up to k random segments within `bits` bits
Mixed(v, bits, s, k) ==
  FoldLeft(LAMBDA a, i :
    LET mode == <<NUM, ALN, BYT>>[Rnd(s, i, 3) + 1]
        max == MaxChars(mode, v, a.left)
        n == IF max <= 0 THEN 0
             ELSE IF Rnd(s + 1, i, 4) = 0 THEN max
             ELSE Rnd(s + 2, i, IF max < 40 THEN max + 1 ELSE 40)
    IN IF max < 0 THEN a
       ELSE TLCEval([segs |-> Append(a.segs, Seg(mode, Rnd(s + 3, i, 4), s + 10 * i, n)),
                     left |-> a.left - SegmentBits(mode, n, v)]),
    [segs |-> <<>>, left |-> bits], [i \in 1..k |-> i]).segs

\* up to k segments of at most three characters, empty ones among them
Small(v, bits, s, k) ==
  FoldLeft(LAMBDA a, i :
    LET mode == <<NUM, ALN, BYT>>[Rnd(s, i, 3) + 1]
        max == MaxChars(mode, v, a.left)
        n == IF max <= 0 THEN 0 ELSE Rnd(s + 2, i, IF max < 3 THEN max + 1 ELSE 4)
    IN IF max < 0 THEN a
       ELSE TLCEval([segs |-> Append(a.segs, Seg(mode, Rnd(s + 3, i, 4), s + 10 * i, n)),
                     left |-> a.left - SegmentBits(mode, n, v)]),
    [segs |-> <<>>, left |-> bits], [i \in 1..k |-> i]).segs
\* the largest power of two (or one less, or one more) that fits
RoundLength(max, d) ==
  LET p == FoldLeft(LAMBDA a, i : IF 2 ^ i + d <= max THEN 2 ^ i + d ELSE a, 0, [i \in 1..12 |-> i]) IN p
NumKinds == 14
ContentSegs(kind, v, cap, s) ==
  LET full(mode, style) == <<Seg(mode, style, s, MaxChars(mode, v, 8 * cap))>>
      short == 1 + Rnd(s, 77, 12)
  IN CASE kind = 0 -> full(BYT, 0)
       [] kind = 1 -> full(NUM, 0)
       [] kind = 2 -> full(ALN, 0)
       [] kind = 3 -> Mixed(v, 8 * cap, s, 6)
       [] kind = 4 -> <<Seg(BYT, 0, s, IF short > cap - 4 THEN 1 ELSE short)>>
       [] kind = 5 -> full(BYT, 2)
       [] kind = 6 -> full(BYT, 1)
       [] kind = 7 -> Mixed(v, 8 * cap, s, 20)
       [] kind = 8 -> Small(v, 8 * cap, s, 10 + Rnd(s, 78, 150))
       [] kind = 9 -> LET mode == <<NUM, ALN, BYT>>[1 + Rnd(s, 79, 3)]
                          d == Rnd(s, 80, 3) - 1
                      IN <<Seg(mode, Rnd(s, 81, 4), s, RoundLength(MaxChars(mode, v, 8 * cap), d))>>
       [] kind = 10 -> IF s % 3 = 0 THEN <<>> ELSE <<Seg(<<NUM, ALN, BYT>>[1 + Rnd(s, 79, 3)], 0, s, s % 2)>>
       [] kind = 11 -> LET mode == <<NUM, ALN, BYT>>[1 + Rnd(s, 79, 3)]          \* all but a few characters
                           max == MaxChars(mode, v, 8 * cap)
                           less == Rnd(s, 80, 6)
                       IN <<Seg(mode, Rnd(s, 81, 4), s, IF max < less THEN max ELSE max - less)>>
       [] kind = 12 -> LET mode == <<NUM, ALN, BYT>>[1 + Rnd(s, 79, 3)]          \* any number of them
                       IN <<Seg(mode, Rnd(s, 81, 4), s, Rnd(s, 82, MaxChars(mode, v, 8 * cap) + 1))>>
       [] kind = 13 -> full(BYT, 3)
=============================================================================
