------------------------------- MODULE QRStd -------------------------------
(* The symbol structure of ISO/IEC 18004 (model 2) that the library decodes:   *)
(* geometry of a version, function patterns, order in which data modules are   *)
(* read, masks, format words, block structure and error correction capacity.   *)
EXTENDS Integers, Sequences, FiniteSets, Bitwise, TLC, QRField

Versions == 1..40
Levels   == 1..4            \* 1 = LOW, 2 = MEDIUM, 3 = QUARTILE, 4 = HIGH
LevelName == <<"LOW", "MEDIUM", "QUARTILE", "HIGH">>
Masks    == 0..7

Side(v) == 4 * v + 17

(* ---------------------------------------------------------------- geometry *)
\* Annex E: centre coordinates of alignment patterns
NumAlign(v) == IF v = 1 THEN 0 ELSE (v \div 7) + 2
AlignStep(v) ==
  IF v = 32 THEN 26
  ELSE ((v * 4 + NumAlign(v) * 2 + 1) \div (NumAlign(v) * 2 - 2)) * 2
AlignCentres(v) ==
  IF v = 1 THEN {}
  ELSE {6} \cup {Side(v) - 7 - k * AlignStep(v) : k \in 0..(NumAlign(v) - 2)}

AlignPairs(v) ==
  {p \in AlignCentres(v) \X AlignCentres(v) :
      /\ p # <<6, 6>>
      /\ p # <<6, Side(v) - 7>>
      /\ p # <<Side(v) - 7, 6>>}

Abs(n) == IF n < 0 THEN -n ELSE n
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

InFinderCorner(v, x, y) ==      \* finder + separator + format strip + dark module
  \/ x <= 8 /\ y <= 8
  \/ x >= Side(v) - 8 /\ y <= 8
  \/ x <= 8 /\ y >= Side(v) - 8
InTiming(x, y) == x = 6 \/ y = 6
InVersionInfo(v, x, y) ==
  v >= 7 /\ \/ x >= Side(v) - 11 /\ x <= Side(v) - 9 /\ y <= 5
            \/ y >= Side(v) - 11 /\ y <= Side(v) - 9 /\ x <= 5
\* coordinates within 2 of an alignment centre, and the patterns they select
InAlignment(v, cs, x, y) ==
  \E cx \in cs : Abs(x - cx) <= 2 /\
     \E cy \in cs : Abs(y - cy) <= 2 /\
        /\ <<cx, cy>> # <<6, 6>>
        /\ <<cx, cy>> # <<6, Side(v) - 7>>
        /\ <<cx, cy>> # <<Side(v) - 7, 6>>

IsFunction(v, cs, x, y) ==
  \/ InTiming(x, y)
  \/ InFinderCorner(v, x, y)
  \/ InVersionInfo(v, x, y)
  \/ InAlignment(v, cs, x, y)

(* Colour (1 = dark) of function modules other than format information.        *)
FinderDark(dx, dy) == Max2(Abs(dx), Abs(dy)) \notin {2, 4}
VersionWord(v) ==                                      \* BCH(18,6), 0x1F25
  LET RECURSIVE R(_, _)
      R(r, n) == IF n = 0 THEN r
                 ELSE R(IF 2 * r >= 4096 THEN BXor(2 * r, 7973) ELSE 2 * r, n - 1)
  IN v * 4096 + R(v, 12)
BitAt(n, i) == (n \div (2 ^ i)) % 2
FunctionDark(v, cs, x, y) ==
  LET s == Side(v) IN
  IF Max2(x, y) <= 7 /\ Max2(Abs(x - 3), Abs(y - 3)) <= 4 THEN FinderDark(x - 3, y - 3)
  ELSE IF x >= s - 8 /\ y <= 7 THEN FinderDark(x - (s - 4), y - 3)
  ELSE IF y >= s - 8 /\ x <= 7 THEN FinderDark(x - 3, y - (s - 4))
  ELSE IF InVersionInfo(v, x, y) THEN
         LET a == IF y <= 5 /\ x >= s - 11 THEN x - (s - 11) ELSE y - (s - 11)
             b == IF y <= 5 /\ x >= s - 11 THEN y ELSE x
         IN BitAt(VersionWord(v), b * 3 + a) = 1
  ELSE IF InAlignment(v, cs, x, y) THEN
         LET cx == CHOOSE c \in cs : Abs(x - c) <= 2
             cy == CHOOSE c \in cs : Abs(y - c) <= 2
         IN Max2(Abs(x - cx), Abs(y - cy)) # 1
  ELSE IF InTiming(x, y) THEN (x + y) % 2 = 0
  ELSE x = 8 /\ y = s - 8                               \* the dark module

(* ------------------------------------------------- order of data modules *)
(* Column pairs from the right, alternately upwards and downwards, skipping    *)
(* the vertical timing column; position k (0-based) of the walk over ALL       *)
(* modules of the pairs, function modules included.                            *)
WalkLength(v) == (Side(v) - 1) * Side(v)
WalkX(v, k) == LET pair == k \div (2 * Side(v))          \* 0 = rightmost pair
                   right == Side(v) - 1 - 2 * pair
                   r == IF right <= 6 THEN right - 1 ELSE right
               IN r - (k % 2)
WalkY(v, k) == LET pair == k \div (2 * Side(v))
                   row == (k % (2 * Side(v))) \div 2
               IN IF pair % 2 = 0 THEN Side(v) - 1 - row ELSE row

DataOrder(v) ==   \* sequence of module indices y*side+x
  LET cs == TLCEval(AlignCentres(v))
      all == TLCEval([k \in 1..WalkLength(v) |-> <<WalkX(v, k - 1), WalkY(v, k - 1)>>])
      keep == SelectSeq(all, LAMBDA p : ~IsFunction(v, cs, p[1], p[2]))
  IN [k \in 1..Len(keep) |-> keep[k][2] * Side(v) + keep[k][1]]

(* ----------------------------------------------------------------- masks *)
MaskBit(m, x, y) ==
  LET c == CASE m = 0 -> (x + y) % 2
             [] m = 1 -> y % 2
             [] m = 2 -> x % 3
             [] m = 3 -> (x + y) % 3
             [] m = 4 -> ((x \div 3) + (y \div 2)) % 2
             [] m = 5 -> ((x * y) % 2) + ((x * y) % 3)
             [] m = 6 -> (((x * y) % 2) + ((x * y) % 3)) % 2
             [] m = 7 -> (((x + y) % 2) + ((x * y) % 3)) % 2
  IN IF c = 0 THEN 1 ELSE 0

(* ---------------------------------------------------------------- format *)
LevelBits == <<1, 0, 3, 2>>        \* L = 01, M = 00, Q = 11, H = 10
FormatWord(l, m) ==
  LET d == LevelBits[l] * 8 + m
      RECURSIVE R(_, _)
      R(r, n) == IF n = 0 THEN r
                 ELSE R(IF 2 * r >= 1024 THEN BXor(2 * r, 1335) ELSE 2 * r, n - 1)
  IN BXor(d * 1024 + R(d, 10), 21522)
\* module index of bit i (0 = least significant) of the two copies
Fmt1(v, i) == LET s == Side(v) IN
  IF i <= 5 THEN i * s + 8
  ELSE IF i = 6 THEN 7 * s + 8
  ELSE IF i = 7 THEN 8 * s + 8
  ELSE IF i = 8 THEN 8 * s + 7
  ELSE 8 * s + (14 - i)
Fmt2(v, i) == LET s == Side(v) IN
  IF i <= 7 THEN 8 * s + (s - 1 - i)
  ELSE (s - 15 + i) * s + 8

(* --------------------------------------------------------- block structure *)
\* Number of error correction codewords per block, and of blocks (ISO table 9)
EcPerBlock == <<
 <<7,10,15,20,26,18,20,24,30,18,20,24,26,30,22,24,28,30,28,28,28,28,30,30,26,28,30,30,30,30,30,30,30,30,30,30,30,30,30,30>>,
 <<10,16,26,18,24,16,18,22,22,26,30,22,22,24,24,28,28,26,26,26,26,28,28,28,28,28,28,28,28,28,28,28,28,28,28,28,28,28,28,28>>,
 <<13,22,18,26,18,24,18,22,20,24,28,26,24,20,30,24,28,28,26,30,28,30,30,30,30,28,30,30,30,30,30,30,30,30,30,30,30,30,30,30>>,
 <<17,28,22,16,22,28,26,26,24,28,24,28,22,24,24,30,28,28,26,28,30,24,30,30,30,30,30,30,30,30,30,30,30,30,30,30,30,30,30,30>> >>
NumBlocks == <<
 <<1,1,1,1,1,2,2,2,2,4,4,4,4,4,6,6,6,6,7,8,8,9,9,10,12,12,12,13,14,15,16,17,18,19,19,20,21,22,24,25>>,
 <<1,1,1,2,2,4,4,4,5,5,5,8,9,9,10,10,11,13,14,16,17,17,18,20,21,23,25,26,28,29,31,33,35,37,38,40,43,45,47,49>>,
 <<1,1,2,2,4,4,6,6,8,8,8,10,12,16,12,17,16,18,21,20,23,23,25,27,29,34,34,35,38,40,43,45,48,51,53,56,59,62,65,68>>,
 <<1,1,2,4,4,4,5,6,8,8,11,11,16,16,18,16,19,21,25,25,25,34,30,32,35,37,40,42,45,48,51,54,57,60,63,66,70,74,77,81>> >>

\* Number of modules available for data: total minus function patterns
RawModules(v) ==
  LET n == NumAlign(v)
      base == (16 * v + 128) * v + 64
      noAl == IF v = 1 THEN base ELSE base - ((25 * n - 10) * n - 55)
  IN IF v >= 7 THEN noAl - 36 ELSE noAl
TotalCodewords(v) == RawModules(v) \div 8
RemainderBits(v)  == RawModules(v) % 8

Ec(v, l) == EcPerBlock[l][v]
NB(v, l) == NumBlocks[l][v]
ShortTotal(v, l) == TotalCodewords(v) \div NB(v, l)
NumShort(v, l) == NB(v, l) - (TotalCodewords(v) % NB(v, l))
BlockTotal(v, l, b) == ShortTotal(v, l) + (IF b > NumShort(v, l) THEN 1 ELSE 0)
BlockData(v, l, b) == BlockTotal(v, l, b) - Ec(v, l)
DataCodewords(v, l) == TotalCodewords(v) - NB(v, l) * Ec(v, l)

\* Codewords reserved for misdecode protection (ISO table 9, note)
Reserved(v, l) ==
  CASE <<v, l>> = <<1, 1>> -> 3
    [] <<v, l>> \in {<<1, 2>>, <<2, 1>>} -> 2
    [] <<v, l>> \in {<<1, 3>>, <<1, 4>>, <<3, 1>>} -> 1
    [] OTHER -> 0
\* Error correction capacity: codewords that may be wrong in one block
Cap(v, l) == (Ec(v, l) - Reserved(v, l)) \div 2

(* Interleaving: the codeword stream takes codeword 1 of every block, then     *)
(* codeword 2 of every block that still has a data codeword left, ..., then    *)
(* the error correction codewords likewise.  Stream[k] = <<block, position>>.  *)
InterleaveOrder(v, l) ==
  LET nb == NB(v, l)
      ns == NumShort(v, l)
      sd == ShortTotal(v, l) - Ec(v, l)
      ec == Ec(v, l)
      part1 == [k \in 1..(nb * sd) |-> <<((k - 1) % nb) + 1, ((k - 1) \div nb) + 1>>]
      part2 == [k \in 1..(nb - ns) |-> <<ns + k, sd + 1>>]
      part3 == [k \in 1..(nb * ec) |->
                  LET b == ((k - 1) % nb) + 1
                  IN <<b, BlockData(v, l, b) + ((k - 1) \div nb) + 1>>]
  IN part1 \o part2 \o part3
=============================================================================
