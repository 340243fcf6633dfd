----------------------------- MODULE GenCorners -----------------------------
(* Pictures of lone finder patterns, and which of them have to be taken for a   *)
(* code: arrangements around every threshold, and scattered ones.              *)
EXTENDS Corners, QRRand, SequencesExt, TLC, Json

Out == IOEnv.OUT_DIR
Number == IF Thorough THEN 12000 ELSE 3000

(* A right angle with legs of d and d * f / 100, turned by (a, b) / c and        *)
(* sheared by t / 100; corner, two ends, as offsets in pixels.                  *)
Turns == << <<1, 0, 1>>, <<0, 1, 1>>, <<0 - 1, 0, 1>>, <<0, 0 - 1, 1>>, <<4, 3, 5>>, <<0 - 3, 4, 5>>, <<12, 5, 13>>, <<5, 0 - 12, 13>>,
            <<24, 7, 25>>, <<0 - 24, 7, 25>>, <<20, 21, 29>>, <<0 - 20, 0 - 21, 29>> >>
Angle(i) ==
  LET chain == i % 8 = 1                                             \* sizes in steps of one, in any order
      s == IF chain THEN 8 + Rnd(i, 1, 11) ELSE 3 + Rnd(i, 1, 10)
      d == s * 11 + Rnd(i, 2, s * << 5, 30, 12 >>[1 + (i % 3)])
      f == 70 + Rnd(i, 3, 31)
      t == Rnd(i, 4, 91) - 45
      r == Turns[1 + Rnd(i, 5, Len(Turns))]
      ax == (d * r[1]) \div r[3]
      ay == (d * r[2]) \div r[3]
      g == IF i % 5 < 2 THEN 100 ELSE f
      h == IF i % 5 \in {0, 2} THEN 0 ELSE t
      bx == ((0 - ay) * g) \div 100 + (ax * h) \div 100
      by == (ax * g) \div 100 + (ay * h) \div 100
      q == Rnd(i, 6, 6)
      more == IF i % 4 = 0 THEN Rnd(i, 7, 3) ELSE 0                \* a different size
      order == << <<1, 2, 3>>, <<2, 3, 1>>, <<3, 1, 2>>, <<1, 3, 2>>, <<3, 2, 1>>, <<2, 1, 3>> >>[1 + Rnd(i, 8, 6)]
      size(k) == IF chain THEN s + << <<0, 1, 2>>, <<1, 2, 0>>, <<2, 0, 1>>, <<0, 2, 1>>, <<2, 1, 0>>, <<1, 0, 2>> >>[1 + Rnd(i, 9, 6)][k]
                 ELSE IF k = q THEN s + more ELSE s
      pts == << <<0, 0>>, <<ax, ay>>, <<bx, by>> >>
      least(j) == FoldLeft(LAMBDA a, k : IF pts[k][j] < a THEN pts[k][j] ELSE a, 0, <<1, 2, 3>>)
      m == 3 * (s + 2) + 2
  IN [k \in 1..3 |-> <<pts[order[k]][1] - least(1) + m, pts[order[k]][2] - least(2) + m, size(k)>>]
\* any number anywhere, apart from each other
Scattered(i) ==
  LET n == 4 + Rnd(i, 1, 12)
      base == 3 + Rnd(i, 2, 9)
      size(j) == CASE i % 5 < 3 -> base [] i % 5 = 3 -> base + Rnd(i, 40 + j, 2) [] OTHER -> 3 + Rnd(i, 40 + j, 10)
      apart(p, q) == LET r == 5 * (p[3] + q[3]) IN Abs(p[1] - q[1]) >= r \/ Abs(p[2] - q[2]) >= r
      grid == IF i % 2 = 0 THEN 1 ELSE 6 * base       \* many equal distances on a grid
      room == IF i % 2 = 0 THEN 30 * base ELSE 36 * base
  IN FoldLeft(LAMBDA a, j :
       LET p == <<3 * base + 2 + grid * Rnd(i, 100 + 2 * j, (room \div grid)), 3 * base + 2 + grid * Rnd(i, 101 + 2 * j, (room \div grid)), size(j)>>
       IN IF \A q \in 1..Len(a) : apart(a[q], p) THEN Append(a, p) ELSE a,
     <<>>, [j \in 1..n |-> j])

(* corners (top left pixel) and sizes to centres in half pixels *)
Centres(c) == [k \in 1..Len(c) |-> <<2 * c[k][1] + 7 * c[k][3], 2 * c[k][2] + 7 * c[k][3], c[k][3]>>]
Extent(c, j) == FoldLeft(LAMBDA a, p : IF p[j] + 10 * p[3] > a THEN p[j] + 10 * p[3] ELSE a, 0, c)
Apart(c) == \A a, b \in 1..Len(c) : a = b \/ LET r == 9 * (IF c[a][3] > c[b][3] THEN c[a][3] ELSE c[b][3])
                                          IN Abs(c[a][1] - c[b][1]) >= r \/ Abs(c[a][2] - c[b][2]) >= r
Case(i, c) ==
  CHOOSE z \in {[name |-> "corners-" \o ToString(i), w |-> Extent(c, 1), h |-> Extent(c, 2), finders |-> c, expected |-> SetToSeq({e[t] : t \in DOMAIN e})] :
                  e \in {Expected(Centres(c))}} : TRUE

Chunk == 100
VARIABLES part, ok
Init == part \in 1..(Number \div Chunk) /\ ok = TRUE
Next == /\ part > 0
        /\ \E cs \in {[k \in 1..Chunk |-> LET i == (part - 1) * Chunk + k IN IF i % 8 < 5 THEN Angle(i) ELSE Scattered(i)]} :
             /\ JsonSerialize(Out \o "/corners-" \o ToString(part) \o ".json",
                  [k \in 1..Chunk |-> IF Apart(cs[k]) THEN Case((part - 1) * Chunk + k, cs[k]) ELSE [name |-> "none"]])
             /\ ok' = \A k \in 1..Chunk : Apart(cs[k]) => OneCorner(Centres(cs[k]))
        /\ part' = 0 - part
Spec == Init /\ [][Next]_<<part, ok>>
Unambiguous == ok
=============================================================================
