---------------------------- MODULE GenBinarize ----------------------------
(* Gray pictures with the two admissible prepared pictures (C11).              *)
EXTENDS Binarize, QRRand, Json
Out == IOEnv.OUT_DIR
Cases == IF Thorough THEN 2400 ELSE 512

\* block size, mean size
Shapes == << <<5, 7>>, <<5, 7>>, <<1, 3>>, <<2, 5>>, <<3, 7>>, <<4, 1>>, <<6, 3>>, <<7, 5>>, <<2, 9>>, <<3, 3>>, <<1, 1>>, <<10, 7>>,
             <<17, 3>>, <<20, 5>>, <<33, 3>>, <<24, 1>> >>
Size(i, j, bs) == IF bs > 16 THEN bs + Rnd(i, j, 2 * bs)
              ELSE IF i % 16 = 0 THEN 1 + Rnd(i, j, 5)
              ELSE IF i % 23 = 0 THEN 40 + Rnd(i, j, 40)
              ELSE 1 + Rnd(i, j, 40)
Value(i, fam, w, h, x, y) ==
  LET r == Rnd(i * 31 + x, 100 + y, 1000)
      k == y * w + x
  IN CASE fam = 0 -> r % 256
       [] fam = 1 -> IF r % 2 = 0 THEN 0 ELSE 255
       [] fam = 2 -> IF r % 3 = 0 THEN 100 ELSE 104                        \* little contrast
       [] fam = 3 -> (<<249, 250, 251, 250, 252, 248>>)[1 + (r % 6)]         \* around the upper bound
       [] fam = 4 -> (<<4, 5, 6, 5, 3, 7>>)[1 + (r % 6)]                     \* around the lower bound
       [] fam = 5 -> Rnd(i, 9, 256)                                        \* flat
       [] fam = 6 -> (x * 255) \div w                                      \* gradient
       [] fam = 7 -> IF (x + y) % 2 = 0 THEN 255 ELSE 245 + (i % 2)       \* means of exactly 250, 250.5
       [] fam = 8 -> IF (x + y) % 2 = 0 THEN 0 ELSE 10 - (i % 2)          \* means of exactly 5, 4.5
       [] fam = 9 -> IF (x \div 7 + y \div 7) % 2 = 0 THEN 20 + (r % 8) ELSE 230 - (r % 8)
       [] fam = 10 -> IF k = w * h - 1 \/ k = 0 THEN 255 ELSE 0           \* extremes in the corners
       [] fam = 11 -> IF x = w - 1 \/ y = h - 1 THEN r % 256 ELSE 128     \* all in the last partial blocks
       [] fam = 12 -> IF r % 50 = 0 THEN 0 ELSE 255
       [] fam = 13 -> 250 + (IF y < h \div 2 THEN 1 ELSE 0)
       [] fam = 14 -> (x * 8 + y * 3) % 256
       [] fam = 15 -> 5 - (IF x < w \div 2 THEN 1 ELSE 0)
Gray(i, w, h) == Tuple(w * h, LAMBDA k : Value(i, i % 16, w, h, (k - 1) % w, (k - 1) \div w))
\* pictures and blocks beyond what fits a byte or two
Large == << <<66000, 1, 5, 7>>, <<1, 66000, 5, 7>>, <<420, 330, 5, 7>>, <<310, 620, 300, 3>>, <<520, 300, 257, 1>>, <<1290, 60, 4, 9>>,
            <<70, 1400, 5, 7>>, <<33000, 2, 7, 5>>, <<3, 22000, 1, 3>>, <<300, 300, 400, 3>>, <<600, 280, 5, 7>>, <<262, 262, 1, 1>>,
            <<90, 70, 2, 255>>, <<400, 40, 5, 257>>, <<310, 290, 5, 7>>, <<140, 900, 65, 3>> >>
Case(i, w, h, bs, ms, g, st) ==
  LET nx == BlocksAcross(w, bs)
      ny == BlocksAcross(h, bs)
      s == Stride(ms)
      want(after) == CHOOSE z \in {Prepared(g, w, h, bs, loc) : loc \in {Locals(st, nx, ny, s, after)}} : TRUE
  IN [name |-> "binarize-" \o ToString(i), w |-> w, h |-> h, bs |-> bs, ms |-> ms, gray |-> g,
      want |-> want(0), documented |-> IF s = 0 THEN want(0) ELSE want(1)]
Dims(i, sh) == IF i > Cases THEN Large[i - Cases] ELSE <<Size(i, 1, sh[1]), Size(i, 2, sh[1]), sh[1], sh[2]>>
VARIABLES part, ok
Init == part \in 1..(Cases + Len(Large)) /\ ok = TRUE
\* the prepared picture only has the two colours, and nothing is white in a black surrounding
Sound(c) == Len(c.want) = c.w * c.h /\ \A k \in 1..Len(c.want) : c.want[k] \in {0, 1}
Next == /\ part > 0
        /\ \E sh \in {Shapes[1 + ((part \div 16) % Len(Shapes))]} :
           \E d \in {Dims(part, sh)} :
           \E g \in {Gray(part, d[1], d[2])} :
           \E st \in {Stats(g, d[1], d[2], d[3])} :
           \E c \in {Case(part, d[1], d[2], d[3], d[4], g, st)} :
             /\ JsonSerialize(Out \o "/bin-" \o ToString(part) \o ".json", c)
             /\ ok' = Sound(c)
        /\ part' = 0 - part
Spec == Init /\ [][Next]_<<part, ok>>
SoundHolds == ok
=============================================================================
