------------------------------ MODULE Segments ------------------------------
(* The content of a symbol: segments, their encoding into data codewords, and  *)
(* the reading of an arbitrary sequence of data codewords, as a state machine  *)
(* that takes one step per mode indicator, character group or byte segment.    *)
EXTENDS Integers, Sequences, SequencesExt, TLC

NUM == 1
ALN == 2
BYT == 4

(* Width of the character count, by version class                              *)
CountBits(mode, v) ==
  LET k == IF v <= 9 THEN 1 ELSE IF v <= 26 THEN 2 ELSE 3 IN
  CASE mode = NUM -> <<10, 12, 14>>[k]
    [] mode = ALN -> <<9, 11, 13>>[k]
    [] mode = BYT -> <<8, 16, 16>>[k]

(* ---------------------------------------------------------------- encoding *)
\* a segment is [mode |-> .., chars |-> ..]: digits, alphanumeric values, bytes
GroupSize(mode) == CASE mode = NUM -> 3 [] mode = ALN -> 2 [] mode = BYT -> 1
GroupBits(mode, k) ==
  CASE mode = NUM -> <<4, 7, 10>>[k]
    [] mode = ALN -> <<6, 11>>[k]
    [] mode = BYT -> 8
GroupBase(mode) == CASE mode = NUM -> 10 [] mode = ALN -> 45 [] mode = BYT -> 256
GroupLimit(mode, k) == GroupBase(mode) ^ k       \* values from here on are invalid

SegmentBits(mode, n, v) ==
  LET g == GroupSize(mode) IN
  4 + CountBits(mode, v) + (n \div g) * GroupBits(mode, g)
    + (IF n % g = 0 THEN 0 ELSE GroupBits(mode, n % g))
\* the largest number of characters of a mode that fits into `bits` bits
MaxChars(mode, v, bits) ==
  LET room == bits - 4 - CountBits(mode, v)
      g == GroupSize(mode)
      full == room \div GroupBits(mode, g)
      rest == room % GroupBits(mode, g)
      more == IF g = 3 THEN IF rest >= 7 THEN 2 ELSE IF rest >= 4 THEN 1 ELSE 0
              ELSE IF g = 2 THEN IF rest >= 6 THEN 1 ELSE 0
              ELSE 0
      n == full * g + more
      lim == 2 ^ CountBits(mode, v) - 1
  IN IF room < 0 THEN 0 - 1 ELSE IF n > lim THEN lim ELSE n

\* <<value, width>> fields of a segment
Fields(seg, v) ==
  LET n == Len(seg.chars)
      g == GroupSize(seg.mode)
      base == GroupBase(seg.mode)
      ng == (n + g - 1) \div g
      grp(k) == LET from == (k - 1) * g + 1
                    to == IF k * g > n THEN n ELSE k * g
                IN << IF to - from = 0 THEN seg.chars[from]
                      ELSE IF to - from = 1 THEN seg.chars[from] * base + seg.chars[from + 1]
                      ELSE (seg.chars[from] * base + seg.chars[from + 1]) * base + seg.chars[to],
                      GroupBits(seg.mode, to - from + 1) >>
  IN <<<<seg.mode, 4>>, <<n, CountBits(seg.mode, v)>>>> \o [k \in 1..ng |-> grp(k)]

\* Fields to codewords; `tail` is the number of bits in the unfinished codeword
Pack(fields) ==
  FoldLeft(LAMBDA a, f :
    LET t == a.n + f[2]
        val == a.acc * 2 ^ f[2] + f[1]
        r == t % 8
        out == IF t >= 16 THEN a.out \o <<(val \div 2 ^ (t - 8)) % 256, (val \div 2 ^ r) % 256>>
               ELSE IF t >= 8 THEN Append(a.out, (val \div 2 ^ r) % 256)
               ELSE a.out
    IN TLCEval([out |-> out, acc |-> val % 2 ^ r, n |-> r]),
   [out |-> <<>>, acc |-> 0, n |-> 0], fields)

AllFields(segs, v) ==
  FoldLeft(LAMBDA a, s : a \o Fields(s, v), <<>>, segs)

\* terminator (as far as it fits), bit padding, pad codewords
Finish(p, cap) ==
  LET used == Len(p.out) * 8 + p.n
      term == IF cap * 8 - used < 4 THEN cap * 8 - used ELSE 4
      q == TLCEval(Pack(<<<<p.acc, p.n>>, <<0, term>>>>))
      whole == p.out \o (IF q.n = 0 THEN q.out ELSE Append(q.out, q.acc * 2 ^ (8 - q.n)))
  IN whole \o [i \in 1..(cap - Len(whole)) |-> IF i % 2 = 1 THEN 236 ELSE 17]

EncodeSegs(segs, v, cap) == Finish(TLCEval(Pack(TLCEval(AllFields(segs, v)))), cap)

(* ------------------------------------------------------------ text of bytes *)
\* '0'..'9' 'A'..'Z' ' ' '$' '%' '*' '+' '-' '.' '/' ':'
AlnChar(k) == IF k <= 9 THEN 48 + k ELSE IF k <= 35 THEN 55 + k
              ELSE <<32, 36, 37, 42, 43, 45, 46, 47, 58>>[k - 35]

Latin1(bytes) ==       \* ISO 8859-1 to UTF-8
  IF \A i \in 1..Len(bytes) : bytes[i] < 128 THEN bytes
  ELSE FoldLeft(LAMBDA a, b : IF b < 128 THEN Append(a, b)
                              ELSE a \o <<192 + (b \div 64), 128 + (b % 64)>>, <<>>, bytes)

\* Well-formed UTF-8 (Unicode table 3-7): state is the number of continuation
\* bytes still due and the range the next one has to be in; -1 is the sink
Utf8Step(s, b) ==
  IF s[1] < 0 THEN s
  ELSE IF s[1] > 0 THEN
    IF b >= s[2] /\ b <= s[3] THEN <<s[1] - 1, 128, 191>> ELSE <<0 - 1, 0, 0>>
  ELSE CASE b <= 127 -> <<0, 128, 191>>
         [] b >= 194 /\ b <= 223 -> <<1, 128, 191>>
         [] b = 224 -> <<2, 160, 191>>
         [] b = 237 -> <<2, 128, 159>>
         [] b >= 225 /\ b <= 239 /\ b # 237 -> <<2, 128, 191>>
         [] b = 240 -> <<3, 144, 191>>
         [] b >= 241 /\ b <= 243 -> <<3, 128, 191>>
         [] b = 244 -> <<3, 128, 143>>
         [] OTHER -> <<0 - 1, 0, 0>>
ValidUtf8(bytes) == FoldLeft(LAMBDA s, b : Utf8Step(s, b), <<0, 128, 191>>, bytes)[1] = 0

HasC3(bytes) == \E i \in 1..Len(bytes) : bytes[i] = 195
SegText(seg) ==
  CASE seg.mode = NUM -> [i \in 1..Len(seg.chars) |-> 48 + seg.chars[i]]
    [] seg.mode = ALN -> [i \in 1..Len(seg.chars) |-> AlnChar(seg.chars[i])]
    [] seg.mode = BYT -> IF HasC3(seg.chars) THEN seg.chars ELSE Latin1(seg.chars)
TextOf(segs) == FoldLeft(LAMBDA a, s : a \o SegText(s), <<>>, segs)

(* ----------------------------------------------------------------- reading *)
Bits(cw, pos, n) ==
  LET i == pos \div 8
      at(k) == IF k <= Len(cw) THEN cw[k] ELSE 0
      w == at(i + 1) * 65536 + at(i + 2) * 256 + at(i + 3)
  IN (w \div 2 ^ (24 - (pos % 8) - n)) % 2 ^ n

Start == [st |-> "mode", pos |-> 0, mode |-> 0, left |-> 0, out |-> <<>>]
Ended(s) == s.st \in {"done", "err"}
Fits(cw, s, n) == s.pos + n <= 8 * Len(cw)
Reject(s) == [s EXCEPT !.st = "err", !.out = <<>>]
GroupText(mode, val, k) ==
  IF mode = NUM THEN
    IF k = 3 THEN <<48 + val \div 100, 48 + ((val \div 10) % 10), 48 + (val % 10)>>
    ELSE IF k = 2 THEN <<48 + val \div 10, 48 + (val % 10)>> ELSE <<48 + val>>
  ELSE IF k = 2 THEN <<AlnChar(val \div 45), AlnChar(val % 45)>> ELSE <<AlnChar(val)>>

ReadMode(cw, v, s) ==
  IF ~Fits(cw, s, 4) THEN [s EXCEPT !.st = "done"]
  ELSE LET m == Bits(cw, s.pos, 4) IN
    IF m = 0 THEN [s EXCEPT !.st = "done", !.pos = @ + 4]
    ELSE IF m \notin {NUM, ALN, BYT} THEN Reject(s)
    ELSE LET w == CountBits(m, v)
             t == [s EXCEPT !.pos = @ + 4]
         IN IF ~Fits(cw, t, w) THEN Reject(s)
            ELSE LET n == Bits(cw, t.pos, w) IN
              [t EXCEPT !.pos = @ + w, !.mode = m, !.left = n,
                        !.st = IF n = 0 THEN "mode" ELSE "data"]

ReadGroup(cw, s) ==
  LET g == GroupSize(s.mode)
      k == IF s.left >= g THEN g ELSE s.left
      w == GroupBits(s.mode, k)
  IN IF ~Fits(cw, s, w) THEN Reject(s)
     ELSE LET val == Bits(cw, s.pos, w) IN
       IF val >= GroupLimit(s.mode, k) THEN Reject(s)
       ELSE [s EXCEPT !.pos = @ + w, !.left = @ - k,
                      !.st = IF s.left = k THEN "mode" ELSE "data",
                      !.out = @ \o GroupText(s.mode, val, k)]

ReadBytes(cw, s) ==
  IF ~Fits(cw, s, 8 * s.left) THEN Reject(s)
  ELSE LET bytes == TLCEval([i \in 1..s.left |-> Bits(cw, s.pos + 8 * (i - 1), 8)]) IN
    IF HasC3(bytes) /\ ~ValidUtf8(bytes) THEN Reject(s)
    ELSE [s EXCEPT !.pos = @ + 8 * s.left, !.left = 0, !.st = "mode",
                   !.out = @ \o (IF HasC3(bytes) THEN bytes ELSE Latin1(bytes))]

Step(cw, v, s) ==
  CASE s.st = "mode" -> ReadMode(cw, v, s)
    [] s.st = "data" /\ s.mode = BYT -> ReadBytes(cw, s)
    [] s.st = "data" /\ s.mode # BYT -> ReadGroup(cw, s)
    [] OTHER -> s

\* every step but the last consumes at least four bits
Read(cw, v) ==
  FoldLeft(LAMBDA s, i : IF Ended(s) THEN s ELSE TLCEval(Step(cw, v, s)),
           Start, [i \in 1..(2 * Len(cw) + 2) |-> i])
=============================================================================
