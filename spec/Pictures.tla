------------------------------ MODULE Pictures ------------------------------
(* Pictures of any kind for the claim that every call returns (C10), as lists  *)
(* of paint operations:                                                        *)
(*   fill x y w h g            a rectangle                                     *)
(*   noise x y w h permille g seed   that many of the pixels set to g          *)
(*   finder x y sx sy inverted  a finder pattern, modules of sx by sy pixels    *)
(*   align x y sx sy            an alignment pattern                           *)
(*   runs vertical at thick <<widths>> first     black and white runs           *)
(*   code v l mask t s rot x y  a symbol with its corner there, modules of s    *)
(*   invert x y w h                                                            *)
(* Everything is clipped; coordinates may lie outside.                         *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, QRRand, TLC

Picture(w, h, ground, ops) == [w |-> w, h |-> h, ground |-> ground, ops |-> ops]
Fill(x, y, w, h, g) == <<"fill", x, y, w, h, g>>
Noise(x, y, w, h, d, g, s) == <<"noise", x, y, w, h, d, g, s>>
Finder(x, y, sx, sy, inv) == <<"finder", x, y, sx, sy, inv>>
Align(x, y, sx, sy) == <<"align", x, y, sx, sy>>
Runs(vert, at, thick, widths, first) == <<"runs", vert, at, thick, widths, first>>
Symbol(v, l, m, t, s, rot, x, y) == <<"code", v, l, m, t, s, rot, x, y>>
Invert(x, y, w, h) == <<"invert", x, y, w, h>>
Seqn(n, F(_)) == [k \in 1..n |-> F(k)]

\* every size from nothing up to a few pixels, in several fills
Side == IF Thorough THEN 26 ELSE 11
Tiny(i) ==
  LET k == (i - 1) \div 5
      w == k % Side
      h == k \div Side
      f == (i - 1) % 5
  IN Picture(w, h, <<255, 0, 128, 255, 250>>[f + 1],
             IF f < 3 THEN <<>> ELSE IF f = 3 THEN <<Noise(0, 0, w, h, 500, 0, i)>>
             ELSE << Finder(0 - Rnd(i, 1, 4), 0 - Rnd(i, 2, 4), 1, 1, 0), Noise(0, 0, w, h, 30, 0, i) >>)
TinyCount == Side * Side * 5

\* thin pictures with runs as in a finder pattern, and others
Strip(i) ==
  LET thick == 1 + Rnd(i, 1, 4)
      s == 1 + Rnd(i, 2, 9)
      f == << s, s, 3 * s, s, s >>
      widths == Seqn(3 + Rnd(i, 3, 40), LAMBDA k : IF Rnd(i, 4, 3) > 0 THEN f[((k - 1) % 5) + 1] ELSE Rnd(i, 10 + k, 2 * s + 1))
      len == FoldLeft(LAMBDA a, b : a + b, 0, widths) + Rnd(i, 5, 2 * s)
      vert == i % 2
  IN Picture(IF vert = 1 THEN thick ELSE len, IF vert = 1 THEN len ELSE thick, 255,
             <<Runs(vert, 0, thick, widths, i % 3)>>)

\* bands of runs crossing each other
Bands(i) ==
  LET w == 8 + Rnd(i, 1, 180)
      h == 8 + Rnd(i, 2, 180)
      s == 1 + Rnd(i, 3, 6)
      f(k) == << s, s, 3 * s, s, s, 1 + Rnd(i, k, 8 * s) >>
      ws(q) == Seqn(30, LAMBDA k : f(q * 40 + k)[((k - 1) % 6) + 1])
  IN Picture(w, h, 255, Seqn(1 + Rnd(i, 4, 6), LAMBDA q :
        Runs(Rnd(i, 5 + q, 2), Rnd(i, 15 + q, 150), 1 + Rnd(i, 25 + q, 7 * s), ws(q), Rnd(i, 35 + q, 2))))

\* finder patterns on their own: on corners of a square, at the borders, cut, inverted, stretched
Scatter(i) ==
  LET w == 10 + Rnd(i, 1, 300)
      h == 10 + Rnd(i, 2, 300)
      s == 1 + Rnd(i, 3, 7)
      n == 1 + Rnd(i, 4, 7)
      pos(q, m) == CASE Rnd(i, 60 + q, 5) = 0 -> 0
                     [] Rnd(i, 60 + q, 5) = 1 -> m - 7 * s
                     [] Rnd(i, 60 + q, 5) = 2 -> 0 - Rnd(i, 80 + q, 7 * s)
                     [] Rnd(i, 60 + q, 5) = 3 -> m - Rnd(i, 80 + q, 7 * s)
                     [] OTHER -> Rnd(i, 80 + q, m)
  IN Picture(w, h, 255, Seqn(n, LAMBDA q : Finder(pos(2 * q, w), pos(2 * q + 1, h), s, IF i % 4 = 0 THEN 1 + Rnd(i, 99 + q, 7) ELSE s, IF i % 7 = 0 THEN 1 ELSE 0)))
\* three of them as in a symbol of any distance: versions below 1 and far above 40 as well
Corner(i) ==
  LET s == 1 + Rnd(i, 1, 5)
      d == s * (7 + Rnd(i, 2, IF i % 3 = 0 THEN 700 \div s ELSE 60))
      gap == Rnd(i, 3, 3 * s)
      skew == IF i % 4 = 0 THEN Rnd(i, 4, 1 + d \div 20) ELSE 0
      size == d + 7 * s + 2 * gap
      all == << <<gap, gap>>, <<gap + d, gap + skew>>, <<gap, gap + d>>, <<gap + d, gap + d>> >>
      use == Seqn(3, LAMBDA k : all[((k + i) % 4) + 1])
      al == IF i % 2 = 0 THEN <<Align(gap + d - 3 * s + Rnd(i, 5, 6 * s) - 3 * s, gap + d - 3 * s + Rnd(i, 6, 6 * s) - 3 * s, s, s)>> ELSE <<>>
  IN Picture(size, size, 255,
       Seqn(3, LAMBDA k : Finder(use[k][1], use[k][2], s, s, 0)) \o al
       \o (IF i % 5 < 2 THEN <<Noise(7 * s + gap, 7 * s + gap, d, d, 500, 0, i)>> ELSE <<>>)
       \o (IF i % 5 = 2 THEN <<Fill(7 * s + gap + s, 0, d - 9 * s, size, 0)>> ELSE <<>>)
       \* leaves only a part of the picture
       \o (IF i % 6 = 0 THEN <<Invert(0, 0, Rnd(i, 7, size), Rnd(i, 8, size))>> ELSE <<>>))
\* many in a lattice: a large number of candidate triples
Lattice(i) ==
  LET s == 1 + Rnd(i, 1, 3)
      n == 2 + Rnd(i, 2, IF Thorough THEN 7 ELSE 4)
      d == s * (8 + Rnd(i, 3, 16))
  IN Picture(n * d + 8 * s, n * d + 8 * s, 255, Seqn(n * n, LAMBDA q : Finder(s + ((q - 1) % n) * d, s + ((q - 1) \div n) * d, s, s, 0)))

\* symbols in parts: cut by the borders, occluded, inverted, on top of each other, with noise
MaxS(v) == IF v <= 6 THEN 6 ELSE 3
Parts(i) ==
  LET v == 1 + (i % 40)
      s == 2 + Rnd(i, 2, MaxS(v) - 1)
      n == (4 * v + 17) * s
      cut == Rnd(i, 21, 4)                  \* where something is cut off, if anywhere
      w == IF cut = 1 THEN n \div 3 + Rnd(i, 3, n) ELSE n + Rnd(i, 3, 10 * s)
      h == IF cut = 2 THEN n \div 3 + Rnd(i, 4, n) ELSE n + Rnd(i, 4, 10 * s)
      x == IF cut = 3 THEN 0 - Rnd(i, 5, 5 * s) ELSE Rnd(i, 5, 4 * s + 1)
      y == IF cut = 3 THEN 0 - Rnd(i, 6, 5 * s) ELSE Rnd(i, 6, 4 * s + 1)
      code == <<Symbol(v, 1 + Rnd(i, 7, 4), Rnd(i, 8, 8), Rnd(i, 9, 2), s, Rnd(i, 10, 4), x, y)>>
      more == CASE i % 8 = 0 -> <<>>
                [] i % 8 = 1 -> <<Fill(x + Rnd(i, 11, n), y + Rnd(i, 12, n), Rnd(i, 13, n), Rnd(i, 14, n), IF Rnd(i, 15, 2) = 0 THEN 0 ELSE 255)>>
                [] i % 8 = 2 -> <<Invert(0, 0, w, h)>>
                [] i % 8 = 3 -> <<Noise(0, 0, w, h, 1 + Rnd(i, 16, 200), IF Rnd(i, 15, 2) = 0 THEN 0 ELSE 255, i)>>
                [] i % 8 = 4 -> <<Symbol(1 + Rnd(i, 17, 8), 1, 2, 0, s, Rnd(i, 18, 4), Rnd(i, 19, n), Rnd(i, 20, n))>>
                [] i % 8 = 5 -> <<Fill(x + n - 10 * s, y + n - 10 * s, 10 * s, 10 * s, IF Rnd(i, 15, 2) = 0 THEN 0 ELSE 255)>>
                [] i % 8 = 6 -> <<Fill(x + 9 * s, y, s, n, 128), Noise(x, y + 8 * s, n, s, 500, 0, i)>>
                [] i % 8 = 7 -> <<Invert(x + 9 * s, y + 9 * s, n, n)>>
  IN Picture(w, h, 255, code \o more)
\* the same symbol moved over each border by every number of pixels
Sliding(i) ==
  LET v == 1 + (i % 3)
      s == 2
      n == (4 * v + 17) * s
      side == (i \div 3) % 4
      cut == (i - 1) \div 12
  IN Picture(n + 4 - (IF side % 2 = 0 THEN cut ELSE 0), n + 4 - (IF side % 2 = 1 THEN cut ELSE 0), 255,
       <<Symbol(v, 1 + (i % 4), i % 8, 0, s, i % 4,
                IF side = 0 THEN 2 - cut ELSE 2, IF side = 1 THEN 2 - cut ELSE 2)>>)
\* finder patterns with large modules, cut by one or two borders by some pixels; three of them, so that a code is looked for
CutOff(i) ==
  LET s == 6 + Rnd(i, 1, 20)
      d == 14 * s
      left == IF i % 5 = 0 THEN 0 - Rnd(i, 2, s) ELSE 2 * s
      top == IF i % 5 = 1 THEN 0 - Rnd(i, 3, s) ELSE 2 * s
      w == left + d + 7 * s + (IF i % 5 \in {2, 4} THEN 0 - 1 - Rnd(i, 4, s) ELSE s)
      h == top + d + 7 * s + (IF i % 5 \in {3, 4} THEN 0 - 1 - Rnd(i, 5, s) ELSE s)
      at == << <<left, top>>, <<left + d, top>>, <<left, top + d>>, <<left + d, top + d>> >>
  IN Picture(w, h, 255, Seqn(3 + (i % 2), LAMBDA k : Finder(at[1 + ((k + i) % 4)][1], at[1 + ((k + i) % 4)][2], s, s, 0))
                        \o (IF i % 3 = 0 THEN <<Noise(left + 7 * s, top + 7 * s, 7 * s, 7 * s, 500, 0, i)>> ELSE <<>>))
\* noise of all kinds
Noisy(i) ==
  LET w == Rnd(i, 1, 220)
      h == Rnd(i, 2, 220)
      b == 1 + Rnd(i, 3, 12)
  IN Picture(w, h, Rnd(i, 4, 256),
       Seqn(1 + Rnd(i, 5, 4), LAMBDA k : Noise(Rnd(i, 10 + k, w + 1), Rnd(i, 20 + k, h + 1), Rnd(i, 30 + k, w + 1), Rnd(i, 40 + k, h + 1),
                                           1 + Rnd(i, 50 + k, 999), Rnd(i, 60 + k, 256), i * 8 + k))
       \o Seqn(b, LAMBDA k : Fill(Rnd(i, 110 + k, w + 1) - 5, Rnd(i, 120 + k, h + 1) - 5, Rnd(i, 130 + k, 40), Rnd(i, 140 + k, 40), Rnd(i, 150 + k, 256))))

\* few large pictures, wide and high ones among them
Big(i) ==
  LET w == << 3000, 40, 1500, 9000, 3, 1000, 66000, 30 >>[1 + (i % 8)]
      h == << 40, 3000, 1100, 3, 9000, 1000, 30, 66000 >>[1 + (i % 8)]
      s == 1 + Rnd(i, 1, 8)
      f == << s, s, 3 * s, s, s, 2 * s >>
  IN Picture(w, h, 255,
       (CASE ((i \div 8) % 4) = 0 -> <<Noise(0, 0, w, h, 300, 0, i)>>
          [] ((i \div 8) % 4) = 1 -> Seqn(8, LAMBDA q : Runs(IF w > h THEN 0 ELSE 1, Rnd(i, 10 + q, 40), 1 + Rnd(i, 20 + q, 20), Seqn(IF Thorough THEN 900 ELSE 300, LAMBDA k : f[((k - 1) % 6) + 1]), Rnd(i, 30 + q, 2)))
          [] ((i \div 8) % 4) = 2 -> Seqn(12, LAMBDA q : Finder(Rnd(i, 40 + q, w), Rnd(i, 60 + q, h), s, s, 0))
          [] OTHER -> Seqn(4, LAMBDA q : Symbol(1 + Rnd(i, 10 + q, 40), 1, q, 0, 1 + Rnd(i, 20 + q, 4), q % 4, Rnd(i, 40 + q, w), Rnd(i, 60 + q, h)))))

(* Locations to extract at, in eighths of a pixel: three points, a module size *)
(* and a version, on a picture with or without something there.                *)
Far == <<0 - 2000000000, 0 - 100000, 0 - 8, 0 - 4, 0 - 3, 0, 1, 4, 2000000000, 100000>>
Coord(i, k, m) == IF Rnd(i, k, 4) = 0 THEN Far[1 + Rnd(i, k + 1, Len(Far))] ELSE Rnd(i, k + 1, 8 * m + 80) - 40
Located(i) ==
  LET v == 1 + (i % 40)
      kind == (i \div 40) % 4                      \* 0: anything, 1: code cut off, 2, 3: code inside
      s == 1 + Rnd(i, 1, MaxS(v))
      n == (4 * v + 17) * s
      w == CASE kind > 1 -> n + Rnd(i, 2, 16) [] i % 11 = 0 -> Rnd(i, 2, 3) [] i % 11 < 4 -> 1 + Rnd(i, 2, n + 20) [] OTHER -> n + Rnd(i, 2, 16) - 4
      h == CASE kind > 1 -> n + Rnd(i, 3, 16) [] i % 13 = 0 -> Rnd(i, 3, 3) [] i % 13 < 4 -> 1 + Rnd(i, 3, n + 20) [] OTHER -> n + Rnd(i, 3, 16) - 4
      x == IF kind > 1 THEN Rnd(i, 4, w - n + 1) ELSE Rnd(i, 4, 10) - 3
      y == IF kind > 1 THEN Rnd(i, 5, h - n + 1) ELSE Rnd(i, 5, 10) - 3
      ops == CASE i % 5 = 0 -> <<>>
               [] i % 5 = 1 -> <<Noise(0, 0, w, h, 500, 0, i)>>
               [] i % 5 = 2 -> <<Fill(0, 0, w, h, 0)>>
               [] OTHER -> <<Symbol(v, 1, i % 8, 0, s, 0, x, y)>>
      a == 8 * x + 28 * s
      b == 8 * y + 28 * s
      d == 8 * (n - 7 * s)
      j(k) == LET r == << 1, s, 2 * s, 16 * s >>[1 + Rnd(i, 45, 4)] IN Rnd(i, 50 + k, 2 * r) - r
      wild == kind = 0 /\ i % 3 # 0
      tl == IF wild THEN <<Coord(i, 20, w), Coord(i, 22, h)>> ELSE <<a + j(1), b + j(2)>>
      tr == IF wild THEN <<Coord(i, 24, w), Coord(i, 26, h)>> ELSE IF kind = 0 /\ i % 7 = 1 THEN tl ELSE <<a + d + j(3), b + j(4)>>
      bl == IF wild THEN <<Coord(i, 28, w), Coord(i, 30, h)>> ELSE IF kind = 0 /\ i % 7 = 2 THEN tl ELSE <<a + j(5), b + d + j(6)>>
  IN Picture(w, h, 255, ops) @@ [tl |-> tl, tr |-> tr, bl |-> bl, version |-> v,
        module |-> IF i % 9 = 0 THEN Far[1 + Rnd(i, 32, Len(Far))] ELSE 8 * s]
\* an alignment pattern at every place around the expected one, close to the lower right corner of the picture
AtCorner(i) ==
  LET v == 2 + (i % 9)
      s == 1 + Rnd(i, 1, 4)
      n == (4 * v + 17) * s
      cut == Rnd(i, 2, 10 * s)
      w == n - (IF i % 2 = 0 THEN cut ELSE 0)
      h == n - (IF i % 3 = 0 THEN cut ELSE 0)
  IN Picture(w, h, 255, <<Symbol(v, 2, i % 8, 1, s, 0, 0, 0),
                         Align(n - 9 * s + Rnd(i, 3, 6 * s) - 3 * s, n - 9 * s + Rnd(i, 4, 6 * s) - 3 * s, s, s)>>)
       @@ [tl |-> <<28 * s, 28 * s>>, tr |-> <<8 * n - 28 * s, 28 * s>>, bl |-> <<28 * s, 8 * n - 28 * s>>, version |-> v, module |-> 8 * s]

(* Module matrices of all versions: v and paint operations on the modules.     *)
Matrix(i) ==
  LET v == 1 + (i % 40)
      n == 4 * v + 17
      k == (i - 1) \div 40
      ops == CASE k = 0 -> <<>>
               [] k = 1 -> <<Fill(0, 0, n, n, 0)>>
               [] k = 2 -> <<Runs(0, 0, n, Seqn(n, LAMBDA q : 1), 0)>>
               [] k = 3 -> <<Runs(1, 0, n, Seqn(n, LAMBDA q : 1), 0)>>
               [] (k % 4) = 0 -> <<Noise(0, 0, n, n, 500, 0, i)>>
               [] (k % 4) = 1 -> <<Symbol(v, 1 + Rnd(i, 1, 4), Rnd(i, 2, 8), Rnd(i, 3, 2), 1, 0, 0, 0), Noise(0, 0, n, n, 1 + Rnd(i, 4, 60), 0, i), Noise(0, 0, n, n, 1 + Rnd(i, 5, 60), 255, i + 1)>>
               [] (k % 4) = 2 -> <<Symbol(v, 1 + Rnd(i, 1, 4), Rnd(i, 2, 8), Rnd(i, 3, 2), 1, 1 + Rnd(i, 6, 3), 0, 0)>>
               [] OTHER -> <<Symbol(v, 1 + Rnd(i, 1, 4), Rnd(i, 2, 8), Rnd(i, 3, 2), 1, 0, 0, 0), Invert(0, 0, n, IF Rnd(i, 7, 2) = 0 THEN n ELSE 9 + Rnd(i, 8, n - 9))>>
  IN Picture(n, n, 255, ops) @@ [version |-> v]

=============================================================================
