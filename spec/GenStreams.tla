----------------------------- MODULE GenStreams -----------------------------
(* Arbitrary data codewords with their one defined reading (C05). Every family *)
(* is a sequence of <<value, width>> fields or of codewords; what a decoder    *)
(* has to return is the outcome of the reading state machine of Segments.      *)
EXTENDS QRSymbol, Contents, Json

Out == IOEnv.OUT_DIR
Many == IF Thorough THEN 12 ELSE 1

\* fields to exactly cap codewords, cut off or filled with `fill` codewords
FitTo(cw, cap, fill) ==
  [i \in 1..cap |-> IF i <= Len(cw) THEN cw[i] ELSE fill[((i - Len(cw) - 1) % Len(fill)) + 1]]
FromFields(f, cap, fill) ==
  LET p == TLCEval(Pack(f))
      \* the unfinished codeword is completed with the first bits of fill
      cw == IF p.n = 0 THEN p.out
            ELSE Append(p.out, p.acc * 2 ^ (8 - p.n) + (fill[1] \div 2 ^ p.n))
  IN FitTo(cw, cap, fill)
Cap2(v, l) == DataCodewords(v, l)

Case(v, l, s, fam, data) ==
  LET r == TLCEval(Read(data, v)) IN
  [v |-> v, l |-> l, mask |-> Rnd(s, 4, 8), data |-> data, fam |-> fam,
   ok |-> r.st = "done", text |-> IF r.st = "done" THEN r.out ELSE <<>>, errors |-> 0]

(* ---- exhaustive families: every value of every group ------------------- *)
\* a numeric or alphanumeric segment of one group with raw value `val`
GroupCase(v, l, mode, k, val, lead) ==
  LET full == GroupSize(mode)
      f == <<<<mode, 4>>, <<k + lead * full, CountBits(mode, v)>>>>
             \o [i \in 1..lead |-> <<(17 * i) % GroupBase(mode), GroupBits(mode, full)>>]
             \o <<<<val, GroupBits(mode, k)>>, <<0, 4>>>>
  IN Case(v, l, val, "group", FromFields(f, Cap2(v, l), <<236, 17>>))
Groups == << <<NUM, 3>>, <<NUM, 2>>, <<NUM, 1>>, <<ALN, 2>>, <<ALN, 1>> >>
GroupCases(v, l) ==
  FoldLeft(LAMBDA a, g :
     a \o [x \in 1..(2 ^ GroupBits(g[1], g[2])) |-> GroupCase(v, l, g[1], g[2], x - 1, x % 3)],
     <<>>, Groups)

\* every mode indicator, with a plausible count and content behind it
ModeCases(v, l) ==
  [m \in 1..64 |-> LET s == m * 3 + v
     f == <<<<(m - 1) % 16, 4>>, <<1 + Rnd(s, 1, 6), CountBits(BYT, v)>>>>
            \o [i \in 1..8 |-> <<32 + Rnd(s, i, 95), 8>>]
     g == IF m <= 32 THEN f                        \* first, or after a good segment
          ELSE <<<<NUM, 4>>, <<2, CountBits(NUM, v)>>, <<42, 7>>>> \o f
     IN Case(v, l, s, "mode", FromFields(g, Cap2(v, l), IF m % 2 = 0 THEN <<0>> ELSE <<255>>))]

\* byte segments: C3 in front of every byte, behind every byte, and lead bytes
BytesCase(v, l, s, bs) ==
  Case(v, l, s, "bytes",
       FromFields(<<<<BYT, 4>>, <<Len(bs), CountBits(BYT, v)>>>> \o [i \in 1..Len(bs) |-> <<bs[i], 8>>]
                  \o <<<<0, 4>>>>, Cap2(v, l), <<236, 17>>))
BytesCases(v, l) ==
  [x \in 1..256 |-> BytesCase(v, l, x, <<195, x - 1>>)]
  \o [x \in 1..256 |-> BytesCase(v, l, x, <<x - 1, 195, 128 + (x % 64)>>)]
  \o [x \in 1..256 |-> BytesCase(v, l, x, <<195, 169, x - 1, 128 + ((x * 7) % 64), 191>>)]
  \o [x \in 1..256 |-> BytesCase(v, l, x, <<x - 1>>)]                 \* no C3: ISO 8859-1
  \o [x \in 1..256 |-> BytesCase(v, l, x, <<x - 1, 128 + ((x * 5) % 128)>>)]
  \* four-byte sequences: every second byte behind F0..F4
  \o [x \in 1..320 |-> BytesCase(v, l, x,
        <<195, 128, 240 + ((x - 1) \div 64), 128 + ((x - 1) % 64), 128, 129>>)]
  \* three-byte sequences, surrogates included
  \o [x \in 1..256 |-> BytesCase(v, l, x, <<224 + ((x - 1) \div 16), 128 + 4 * ((x - 1) % 16), 190, 195, 188>>)]

\* two byte segments: the text is judged segment by segment
TwoSegments(v, l) ==
  [x \in 1..32 |->
    LET a == IF x % 2 = 0 THEN <<195, 160 + x>> ELSE <<x + 196, x + 160>>
        b == IF x % 3 = 0 THEN <<195, 170>> ELSE IF x % 3 = 1 THEN <<233>> ELSE <<195>>
        w == CountBits(BYT, v)
    IN Case(v, l, x, "two",
         FromFields(<<<<BYT, 4>>, <<2, w>>, <<a[1], 8>>, <<a[2], 8>>, <<BYT, 4>>, <<Len(b), w>>>>
                    \o [i \in 1..Len(b) |-> <<b[i], 8>>] \o <<<<0, 4>>>>, Cap2(v, l), <<0>>))]

(* ---- families over all versions and levels ------------------------------ *)
\* the segment fills the symbol up to the last r bits, which hold `tail`: a
\* terminator of zero to three bits, or bits that must not be read as a mode
EndCase(v, l, mode, s, drop, tail) ==
  LET cap == Cap2(v, l)
      n == MaxChars(mode, v, 8 * cap) - drop
      seg == [mode |-> mode, chars |-> TLCEval(CharsOf(mode, 0, s, n))]
      f == TLCEval(Fields(seg, v))
  IN IF n < 0 THEN Case(v, l, s, "end", FitTo(<<>>, cap, <<0>>))
     ELSE Case(v, l, s, "end", FromFields(f, cap, tail))
EndCases(v, l) ==
  LET one(i) == LET s == v * 50 + l * 10 + i IN
                EndCase(v, l, <<NUM, ALN, BYT>>[(i % 3) + 1], s, (i \div 3) % 4,
                        <<<<0>>, <<255>>, <<16, 64>>, <<17, 34, 68, 136>>>>[(i % 4) + 1])
  IN [i \in 1..(12 * Many) |-> one(i)]

\* counts that run past the end
LongCases(v, l) ==
  [i \in 1..(6 * Many) |->
     LET s == v * 41 + l * 7 + i
         cap == Cap2(v, l)
         mode == <<NUM, ALN, BYT>>[(i % 3) + 1]
         max == MaxChars(mode, v, 8 * cap)
         over == IF i <= 3 THEN 1 ELSE 1 + Rnd(s, 1, 30)
         lim == 2 ^ CountBits(mode, v) - 1
         n == IF max + over > lim THEN lim ELSE max + over
     IN Case(v, l, s, "long",
          FromFields(<<<<mode, 4>>, <<n, CountBits(mode, v)>>>>, cap, <<85, 85, 81>>))]

\* valid content with flipped bits, and with a damaged count or mode
MutantCases(v, l) ==
  [i \in 1..(10 * Many) |->
     LET s == v * 97 + l * 31 + i * 3
         cap == Cap2(v, l)
         segs == TLCEval(ContentSegs(IF i % 2 = 0 THEN 3 ELSE 7, v, cap, s))
         data == TLCEval(EncodeSegs(segs, v, cap))
         near == IF i % 3 = 0 THEN cap ELSE IF cap > 6 THEN 6 ELSE cap
         p == 1 + Rnd(s, 5, near)
         q == 1 + Rnd(s, 6, near)
         d1 == [data EXCEPT ![p] = BXor(@, 2 ^ Rnd(s, 7, 8))]
     IN Case(v, l, s, "mutant", IF i % 4 = 0 THEN d1 ELSE [d1 EXCEPT ![q] = BXor(@, 2 ^ Rnd(s, 8, 8))])]

\* long byte segments with a single C3, anywhere, behind and before bytes of every kind: what tells
\* the encoding may come last, and may be followed by a continuation byte or not
LateCases(v, l) ==
  [i \in 1..(8 * Many) |->
     LET s == v * 71 + l * 17 + i * 7
         cap == Cap2(v, l)
         max == MaxChars(BYT, v, 8 * cap)
         n == IF i % 3 = 0 THEN max ELSE 1 + Rnd(s, 1, max)
         at == IF i % 4 = 0 THEN n ELSE IF i % 4 = 1 THEN n - 1 ELSE 1 + Rnd(s, 2, n)
         b(k) == IF i % 8 >= 6 THEN Rnd(s + 1, k, 256) ELSE 32 + Rnd(s + 1, k, 95)
         bs == [k \in 1..n |-> IF k = at THEN 195 ELSE IF k = at + 1 /\ i % 5 > 0 THEN 128 + Rnd(s, 3, 64) ELSE b(k)]
     IN Case(v, l, s, "late",
          FromFields(<<<<BYT, 4>>, <<n, CountBits(BYT, v)>>>> \o [k \in 1..n |-> <<bs[k], 8>>] \o <<<<0, 4>>>>, cap, <<236, 17>>))]

\* random codewords behind a random valid mode
RandomCases(v, l) ==
  [i \in 1..(8 * Many) |->
     LET s == v * 61 + l * 13 + i * 5
         cap == Cap2(v, l)
         d == [k \in 1..cap |-> Rnd(s, k, 256)]
     IN Case(v, l, s, "random",
          IF i % 4 = 0 THEN d
          ELSE [d EXCEPT ![1] = <<NUM, ALN, BYT>>[(i % 3) + 1] * 16 + IF i % 4 = 1 THEN 0 ELSE @ % 16])]

\* empty segments and immediate terminators in between
EmptyCases(v, l) ==
  [i \in 1..6 |->
     LET s == v * 11 + l + i
         w(m) == CountBits(m, v)
         f == <<<<NUM, 4>>, <<0, w(NUM)>>, <<ALN, 4>>, <<0, w(ALN)>>, <<BYT, 4>>, <<0, w(BYT)>>>>
         g == SubSeq(f, 1, 2 * ((i - 1) % 3) + 2)
         h == IF i <= 3 THEN g \o <<<<BYT, 4>>, <<1, w(BYT)>>, <<65 + i, 8>>>> ELSE g
     IN Case(v, l, s, "empty", FromFields(h, Cap2(v, l), <<0>>))]

Exhaustive == {<<1, 1>>, <<9, 1>>, <<10, 1>>, <<27, 4>>}
Name(tag, v, l) == Out \o "/" \o tag \o "-" \o ToString(v) \o "-" \o ToString(l) \o ".json"

VARIABLES cfg, bad
Jobs == {<<c[1], c[2], j>> : c \in Exhaustive, j \in 1..3}
        \cup {<<c[1], c[2], j>> : c \in Versions \X Levels, j \in {4, 5}}
Cases(v, l, j) ==
  CASE j = 1 -> GroupCases(v, l)
    [] j = 2 -> ModeCases(v, l) \o TwoSegments(v, l)
    [] j = 3 -> BytesCases(v, l)
    [] j = 4 -> EndCases(v, l) \o LongCases(v, l) \o EmptyCases(v, l)
    [] j = 5 -> MutantCases(v, l) \o RandomCases(v, l) \o LateCases(v, l)
\* model-level facts about every reading
Sane(c) ==
  /\ Len(c.data) = DataCodewords(c.v, c.l)
  /\ \A i \in 1..Len(c.data) : c.data[i] \in 0..255
  /\ c.ok => ValidUtf8(c.text)
Init == cfg \in Jobs /\ bad = FALSE
Next == /\ cfg[1] > 0
        /\ \E v \in {cfg[1]}, l \in {cfg[2]}, j \in {cfg[3]} :
           \E cs \in {Cases(v, l, j)} :
             /\ JsonSerialize(Name(ToString(j), v, l), cs)
             /\ bad' = \E i \in 1..Len(cs) : ~Sane(cs[i])
        /\ cfg' = <<0 - cfg[1], cfg[2], cfg[3]>>
Spec == Init /\ [][Next]_<<cfg, bad>>
AllSane == ~bad
=============================================================================
