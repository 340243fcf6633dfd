------------------------------- MODULE Scenes -------------------------------
(* Pictures of symbols with what has to be seen in them, by families.           *)
EXTENDS Scene, Film, QRStd, QRReedSolomon, QRRand, SequencesExt, FiniteSets

Place(sn, sd, rot, ox, oy, g, h) ==
  [sn |-> sn, sd |-> sd, a |-> rot[1], b |-> rot[2], c |-> rot[3], ox |-> ox, oy |-> oy, g |-> g, h |-> h, bend |-> <<1, 0>>]
\* code number t (0, 1) of texts, at level l with mask m
Code(v, l, m, t, p) ==
  LET n == ModulesOf(v) IN
  [v |-> v, l |-> l, mask |-> m, t |-> t,
   place |-> p, coef |-> TLCEval(Coefficients(p, n)), finders |-> TLCEval(Finders(p, n)),
   plan |-> <<>>, readable |-> TRUE]
\* sweep: rows of pixels to invert one at a time; off: the code leaves the picture
Picture(w, h, dark, light, codes) ==
  [w |-> w, h |-> h, dark |-> dark, light |-> light, codes |-> codes, specks |-> <<>>, ops |-> <<>>, film |-> <<>>, sweep |-> <<>>, off |-> FALSE]

\* one code with margins (pixels left, top, right, bottom) around its bounding square
Single(v, s, sn, sd, rot, mg, dark, light, g, h) ==
  LET n == ModulesOf(v)
      p0 == Place(sn, sd, rot, 0, 0, g, h)
      r == Reach(p0, n)                          \* half pixels
      box == r                                   \* pixels: 2 r half pixels
      p == [p0 EXCEPT !.ox = 2 * mg[1] + r, !.oy = 2 * mg[2] + r]
  IN Picture(box + mg[1] + mg[3], box + mg[2] + mg[4], dark, light,
             <<Code(v, 1 + Rnd(s, 31, 4), Rnd(s, 32, 8), Rnd(s, 33, 2), p)>>)
Margins(s, k) == <<Rnd(s, 41, k), Rnd(s, 42, k), Rnd(s, 43, k), Rnd(s, 44, k)>>
Upright == <<1, 0, 1>>

(* ---- C12 --------------------------------------------------------------- *)
\* every version, size and turn at random positions
MaxScale(v) == IF v <= 6 THEN 12 ELSE IF v <= 14 THEN 7 ELSE IF v <= 25 THEN 4 ELSE 3
Sizes(i) ==
  LET v == ((i - 1) % 40) + 1
      s == i * 3 + 1
      sn == 2 + Rnd(s, 1, MaxScale(v) - 1)
  IN Single(v, s, sn, 1, Turn(i \div 40), Margins(s, IF i % 5 = 0 THEN 1 ELSE 4 * sn), 0, 255, 0, 0)
\* every position relative to the blocks, flush with the borders included
Positions(i) ==
  LET v == 1 + (i % 3)
      x == (i - 1) % 11
      y == ((i - 1) \div 11) % 11
      s == i * 7
      sn == 2 + Rnd(s, 1, 4)
  IN Single(v, s, sn, 1, Turn(i), <<x, y, Rnd(s, 2, 8), Rnd(s, 3, 8)>>, 0, 255, 0, 0)
\* gray levels
Grays == << <<0, 255>>, <<50, 200>>, <<100, 130>>, <<120, 125>>, <<0, 40>>, <<200, 255>>, <<10, 245>>, <<30, 31>>,
            <<220, 230>>, <<0, 128>>, <<127, 255>>, <<6, 9>> >>
Gray(i) ==
  LET g == Grays[((i - 1) % Len(Grays)) + 1]
      v == 1 + Rnd(i, 1, 10)
      sn == 2 + Rnd(i, 2, IF v > 6 THEN 4 ELSE 7)
  IN Single(v, i * 11, sn, 1, Turn(i), Margins(i, 3 * sn), g[1], g[2], 0, 0)
\* module sizes that are no whole number of pixels
Fractions == << <<14, 5>>, <<7, 2>>, <<10, 3>>, <<15, 4>>, <<9, 2>>, <<23, 5>>, <<31, 6>>, <<20, 7>>, <<25, 3>> >>
Fractional(i) ==
  LET f == Fractions[((i - 1) % Len(Fractions)) + 1]
      v == 1 + Rnd(i, 1, 12)
  IN Single(v, i * 13, f[1], f[2], Turn(i), Margins(i, 12), 0, 255, 0, 0)
\* small tilts around every quarter turn
Tilted(i) ==
  LET v == 1 + Rnd(i, 1, 8)
      rot == Compose(Turn(i), Tilts[2 + (i % 6)])
      sn == 5 + Rnd(i, 2, 5)
  IN Single(v, i * 17, sn, 1, rot, Margins(i, 2 * sn), 0, 255, 0, 0)

\* any version with modules of any fraction of a pixel from 2.8 pixels on
AnyFraction(i) ==
  LET v == IF i % 2 = 0 THEN 1 + Rnd(i, 1, 40) ELSE 1 + Rnd(i, 1, 15)
      q == 2 + Rnd(i, 2, 9)
      least == (14 * q + 4) \div 5
      sn == least + Rnd(i, 3, q * (IF v > 20 THEN 2 ELSE 6))
  IN Single(v, i * 15, sn, q, Turn(i), Margins(i, 12), 0, 255, 0, 0)
\* any two gray levels with which local means (35 pixels square, at least a seventh of them dark or light) are in 5..250
AnyGray(i) ==
  LET a == CASE i % 4 = 0 -> 5 + Rnd(i, 1, 12) [] i % 4 = 1 -> 243 + Rnd(i, 1, 7) [] i % 4 = 2 -> Rnd(i, 1, 256) [] OTHER -> Rnd(i, 1, 5)
      b == IF i % 4 = 3 THEN 35 + Rnd(i, 2, 20) ELSE IF i % 8 = 2 THEN 251 + Rnd(i, 2, 5) ELSE IF i % 3 = 0 THEN a + 1 + Rnd(i, 2, 3) ELSE Rnd(i, 2, 256)
      lo == IF a < b THEN a ELSE b
      hi == IF a < b THEN b ELSE a
      light == IF lo < 5 /\ hi < 35 THEN 35 ELSE IF hi > 255 THEN 255 ELSE hi
      dark == IF lo = light THEN lo - 1 ELSE lo
      v == 1 + Rnd(i, 3, IF i % 10 = 0 THEN 40 ELSE 10)
      sn == 2 + Rnd(i, 4, IF v > 6 THEN 3 ELSE 7)
  IN Single(v, i * 25, sn, 1, Turn(i), Margins(i, 3 * sn), IF light > 250 /\ dark > 215 THEN 215 ELSE dark, light, 0, 0)
\* any version, tilted
TiltedAny(i) ==
  LET v == 1 + Rnd(i, 1, 40)
      rot == Compose(Turn(i), Tilts[2 + (i % 6)])
      sn == 5 + Rnd(i, 2, IF v > 20 THEN 2 ELSE 4)
  IN Single(v, i * 27, sn, 1, rot, Margins(i, 2 * sn), 0, 255, 0, 0)
\* large modules in versions of all sizes
Big(i) ==
  LET v == 1 + ((i * 11) % 40)
  IN Single(v, i * 35, 6 + Rnd(i, 1, 11), 1, Turn(i), Margins(i, 40), 0, 255, 0, 0)

\* larger tilts, up to about 12.7 degrees
Steep == << <<112, 15, 113>>, <<84, 13, 85>>, <<60, 11, 61>>, <<40, 9, 41>> >>
Mirror(rot, k) == IF k = 0 THEN rot ELSE <<rot[1], 0 - rot[2], rot[3]>>
SteepTilt(i) ==
  LET v == 2 + Rnd(i, 1, 4)
      rot == Compose(Turn(i), Mirror(Steep[1 + ((i \div 4) % 4)], Rnd(i, 9, 2)))
      sn == 6 + Rnd(i, 2, 8)
  IN Single(v, i * 83, sn, 1, rot, Margins(i, 2 * sn), 0, 255, 0, 0)
SteepAny(i) ==
  LET v == 1 + Rnd(i, 1, 40)
      rot == Compose(Turn(i), Mirror(Steep[1 + (i % Len(Steep))], Rnd(i, 9, 2)))
      sn == 6 + Rnd(i, 2, IF v > 20 THEN 2 ELSE 4)
  IN Single(v, i * 29, sn, 1, rot, Margins(i, 2 * sn), 0, 255, 0, 0)
\* large pictures: far from the origin, or with large modules
Far(i) ==
  LET large == i % 3 = 0
      huge == i % 9 = 0
      v == 1 + Rnd(i, 1, IF huge THEN 2 ELSE IF large THEN 3 ELSE 8)
      sn == IF huge THEN 70 + Rnd(i, 2, 200) ELSE IF large THEN 20 + Rnd(i, 2, 50) ELSE 2 + Rnd(i, 2, 8)
      far == IF large THEN 300 ELSE << 300, 1100, 2300, 4200, 5000, 66000 >>[1 + Rnd(i, 3, 6)]
      near == Rnd(i, 4, IF huge THEN 40 ELSE 4 * sn)
      wide == (i \div 3) % 2 = 0
      m == <<IF wide THEN Rnd(i, 5, far) ELSE near, IF wide THEN near ELSE Rnd(i, 6, far),
             IF wide THEN Rnd(i, 7, far) ELSE near, IF wide THEN near ELSE Rnd(i, 8, far)>>
  IN Single(v, i * 71, sn, 1, Turn(i), m, 0, 255, 0, 0)

(* ---- C20: other things around a code ---------------------------------------- *)
(* A frame around the code and its quiet zone is filled with rectangles, lines, *)
(* noise, bar codes, writing and lone finder patterns.                         *)
Clutter(i) ==
  LET v == 1 + Rnd(i, 1, IF i % 8 = 3 THEN 40 ELSE 7)
      sn == 3 + Rnd(i, 2, 7)
      busy == i % 9 \in {0, 4}                   \* much more of it, on wider frames
      wide == IF busy THEN 600 ELSE 70
      f == [k \in 1..4 |-> 20 + Rnd(i, 2 + k, IF busy /\ Rnd(i, 12, 4) + 1 # k THEN 70 ELSE wide)]
      q == 4 * sn
      tilted == sn >= 5 /\ i % 4 = 0
      rot == IF tilted THEN Compose(Turn(i), Tilts[2 + (i % 6)]) ELSE Turn(i)
      p == Single(v, i * 73, sn, 1, rot, [k \in 1..4 |-> f[k] + q], 0, 255, 0, 0)
      \* the four sides of the frame: x, y, w, h
      side == << <<0, 0, f[1], p.h>>, <<0, 0, p.w, f[2]>>, <<p.w - f[3], 0, f[3], p.h>>, <<0, p.h - f[4], p.w, f[4]>> >>
      clip(x, y, w, h, b) ==              \* a rectangle cut down to its side of the frame
        LET x1 == IF x < b[1] THEN b[1] ELSE x
            y1 == IF y < b[2] THEN b[2] ELSE y
            x2 == IF x + w > b[1] + b[3] THEN b[1] + b[3] ELSE x + w
            y2 == IF y + h > b[2] + b[4] THEN b[2] + b[4] ELSE y + h
        IN <<x1, y1, IF x2 > x1 THEN x2 - x1 ELSE 0, IF y2 > y1 THEN y2 - y1 ELSE 0>>
      op(s, j) ==
        LET k == 1 + Rnd(s, 1, 4)
            b == side[k]
            x == b[1] + Rnd(s, 2, b[3])
            y == b[2] + Rnd(s, 3, b[4])
            c == clip(x, y, 1 + Rnd(s, 4, IF busy THEN 500 ELSE 60), 1 + Rnd(s, 5, IF busy THEN 200 ELSE 60), b)
            line == clip(b[1], y, b[3], 1 + Rnd(s, 6, 4), b)
            z == 1 + Rnd(s, 7, IF busy THEN 3 ELSE 8)
            fx == b[1] + Rnd(s, 8, 1 + (IF b[3] > 7 * z THEN b[3] - 7 * z ELSE 0))
            fy == b[2] + Rnd(s, 9, 1 + (IF b[4] > 7 * z THEN b[4] - 7 * z ELSE 0))
            widths == [t \in 1..400 |-> 1 + Rnd(s, 10 + t, IF busy THEN z + 1 ELSE 3 * z)]
            thick == clip(x, y, 1 + Rnd(s, 6, 40), 1 + Rnd(s, 6, 40), b)
        IN CASE j = 0 -> <<"fill", c[1], c[2], c[3], c[4], 0>>
             [] j = 1 -> <<"noise", c[1], c[2], c[3], c[4], 100 + Rnd(s, 11, 600), 0, s>>
             [] j = 2 -> <<"fill", line[1], line[2], line[3], line[4], 0>>
             [] j = 3 -> IF 7 * z <= b[3] /\ 7 * z <= b[4] THEN <<"finder", fx, fy, z, z, 0>> ELSE <<"fill", c[1], c[2], c[3], c[4], 0>>
             [] j = 4 -> IF k \in {1, 3} THEN <<"runs", 1, thick[1], thick[3], widths, 0>> ELSE <<"runs", 0, thick[2], thick[4], widths, 0>>
             [] j = 5 -> <<"noise", b[1], b[2], b[3], b[4], 20 + Rnd(s, 11, IF busy THEN 500 ELSE 300), 0, s>>
             [] j = 6 -> <<"bars", Rnd(s, 12, 2), c[1], c[2], c[3], c[4], widths>>
             [] j = 7 -> <<"bars", Rnd(s, 12, 2), b[1], b[2], b[3], b[4], widths>>
             [] OTHER -> <<"fill", b[1], b[2], b[3], b[4], 0>>
  IN [p EXCEPT !.ops = [k \in 1..(IF busy THEN 60 + Rnd(i, 7, 140) ELSE 1 + Rnd(i, 7, 14)) |-> LET s == i * 197 + k IN op(s, IF i % 3 = 0 THEN 3 ELSE Rnd(s, 20, IF i % 7 = 0 THEN 9 ELSE 8))]]

(* ---- C21: uneven light, blur and grain ----------------------------------- *)
\* the light falls from one side to the other of a picture of w by h pixels by the factor lo / 100
Slope(i, w, h, lo) ==
  LET n == w + h
      dx == IF i % 3 = 1 THEN 0 ELSE 1
      dy == IF i % 3 = 0 THEN 0 ELSE 1
      span == (IF dx = 1 THEN w ELSE 0) + (IF dy = 1 THEN h ELSE 0)
      sx == IF (i \div 3) % 2 = 0 THEN 1 ELSE 0 - 1
      sy == IF (i \div 6) % 2 = 0 THEN 1 ELSE 0 - 1
      drop == 100 - lo
      \* light = 1 at the bright end
  IN [bx |-> 0 - sx * dx * drop, by |-> 0 - sy * dy * drop, d |-> 100 * span,
      a |-> 100 * span - (IF sx < 0 /\ dx = 1 THEN drop * w ELSE 0) - (IF sy < 0 /\ dy = 1 THEN drop * h ELSE 0)]
Filmed(i) ==
  LET v == 1 + Rnd(i, 1, 6)
      sn == 4 + Rnd(i, 2, 6)
      kind == i % 4
      rot == IF sn >= 5 /\ i % 5 = 0 THEN Compose(Turn(i), Tilts[2 + (i % 6)]) ELSE Turn(i)
      dark == Rnd(i, 4, 60)
      light == 255 - Rnd(i, 5, 60)
      p == Single(v, i * 97, sn, 1, rot, Margins(i, 6 * sn), dark, light, 0, 0)
      lo == CASE kind = 0 -> 15 + Rnd(i, 3, 80) [] kind = 3 -> 40 + Rnd(i, 3, 60) [] OTHER -> 100
      blur == CASE kind = 1 -> (sn - 2) \div 4 [] kind = 3 -> Rnd(i, 6, 1 + (sn - 2) \div 4) [] OTHER -> 0
      grain == CASE kind = 2 -> Rnd(i, 7, 1 + (light - dark) \div 8) [] kind = 3 -> Rnd(i, 7, 1 + ((light - dark) * lo) \div 1600) [] OTHER -> 0
  IN [p EXCEPT !.film = <<Slope(Rnd(i, 8, 12), p.w, p.h, lo) @@ [blur |-> blur, grain |-> grain, s |-> Rnd(i, 9, 46000)]>>]
\* any version
FilmedAny(i) ==
  LET v == 1 + Rnd(i, 1, 40)
      sn == 4 + Rnd(i, 2, IF v > 20 THEN 2 ELSE 6)
      kind == i % 4
      rot == IF sn >= 5 /\ i % 5 < 2 THEN Compose(Turn(i), Tilts[2 + (i % 6)]) ELSE Turn(i)
      dark == Rnd(i, 4, 60)
      light == 255 - Rnd(i, 5, 60)
      p == Single(v, i * 95, sn, 1, rot, Margins(i, 6 * sn), dark, light, 0, 0)
      lo == CASE kind = 0 -> 15 + Rnd(i, 3, 80) [] kind = 3 -> 40 + Rnd(i, 3, 60) [] OTHER -> 100
      blur == CASE kind = 1 -> (sn - 2) \div 4 [] kind = 3 -> Rnd(i, 6, 1 + (sn - 2) \div 4) [] OTHER -> 0
      grain == CASE kind = 2 -> Rnd(i, 7, 1 + (light - dark) \div 8) [] kind = 3 -> Rnd(i, 7, 1 + ((light - dark) * lo) \div 1600) [] OTHER -> 0
  IN [p EXCEPT !.film = <<Slope(Rnd(i, 8, 12), p.w, p.h, lo) @@ [blur |-> blur, grain |-> grain, s |-> Rnd(i, 9, 46000)]>>]

\* small pictures of two rectangles seen through a film, pixel by pixel, to check the harness
SeenPicture(i) ==
  LET w == 5 + Rnd(i, 1, 30)
      h == 5 + Rnd(i, 2, 30)
      light == 255 - Rnd(i, 3, 100)
      p == Picture(w, h, 0, light, <<>>)
      r == <<Rnd(i, 4, w), Rnd(i, 5, h), 1 + Rnd(i, 6, w), 1 + Rnd(i, 7, h)>>
      film == Slope(i, w, h, 5 + Rnd(i, 8, 95)) @@ [blur |-> Rnd(i, 9, 5), grain |-> Rnd(i, 10, 80), s |-> Rnd(i, 11, 46000)]
      g == FoldLeft(LAMBDA a, k : Append(a, LET x == (k - 1) % w  y == (k - 1) \div w
                                            IN IF x >= r[1] /\ x < r[1] + r[3] /\ y >= r[2] /\ y < r[2] + r[4] THEN 60 ELSE light),
                    <<>>, [k \in 1..(w * h) |-> k])
  IN [p EXCEPT !.ops = <<<<"fill", r[1], r[2], r[3], r[4], 60>>>>, !.film = <<film>>] @@ [pixels |-> TLCEval(Seen(film, g, w, h))]

(* ---- C13: extraction at the true location -------------------------------- *)
ExtractUpright(i) ==
  LET v == ((i - 1) % 40) + 1
      s == i * 5 + 2
      sn == 2 + Rnd(s, 1, MaxScale(v) - 1)
  IN Single(v, s, sn, 1, Turn(i \div 40), Margins(s, 2 * sn), 0, 255, 0, 0)
ExtractTilted(i) ==
  LET v == 1 + Rnd(i, 1, 8)
      rot == Compose(Turn(i \div 3), Tilts[2 + (i % 6)])
      sn == 4 + Rnd(i, 2, 6)
  IN Single(v, i * 19, sn, 1, rot, Margins(i, 12), 0, 255, 0, 0)
\* any angle
Angles == Steep \o << <<3, 4, 5>>, <<4, 3, 5>>, <<12, 5, 13>>, <<5, 12, 13>>, <<15, 8, 17>>, <<24, 7, 25>>, <<21, 20, 29>>, <<20, 21, 29>>,
            <<35, 12, 37>>, <<55, 48, 73>>, <<48, 55, 73>>, <<63, 16, 65>>, <<33, 56, 65>>, <<77, 36, 85>> >>
ExtractTurned(i) ==
  LET v == 1 + Rnd(i, 1, IF i % 4 = 0 THEN 40 ELSE 10)
      rot == Compose(Turn(i), Mirror(Angles[1 + ((i \div 4) % Len(Angles))], Rnd(i, 9, 2)))
      sn == 5 + Rnd(i, 2, IF v > 10 THEN 2 ELSE 7)
  IN Single(v, i * 89, sn, 1, rot, Margins(i, 12), 0, 255, 0, 0)
Skews == {<<g, h>> \in (0 - 1..2) \X (0 - 1..2) : <<g, h>> # <<0, 0>>}
SkewSeq == SetToSeq(Skews)
ExtractSkewed(i) ==
  LET v == 4 + Rnd(i, 1, 8)
      q == SkewSeq[((i - 1) % Len(SkewSeq)) + 1]
      sn == 6 + Rnd(i, 2, 6)
  IN Single(v, i * 23, sn, 1, Turn(i \div 24), [k \in 1..4 |-> 3 * sn + Rnd(i, 40 + k, 30)], 0, 255, q[1], q[2])
\* up to a module each way for larger codes
WideSkews == SetToSeq({<<g, h>> \in (0 - 2..2) \X (0 - 2..2) : g = 0 - 2 \/ h = 0 - 2})
ExtractWide(i) ==
  LET v == 7 + Rnd(i, 1, 6)
      q == WideSkews[((i - 1) % Len(WideSkews)) + 1]
      sn == 5 + Rnd(i, 2, 3)
  IN Single(v, i * 53, sn, 1, Turn(i \div Len(WideSkews)), [k \in 1..4 |-> 3 * sn + Rnd(i, 40 + k, 30)], 0, 255, q[1], q[2])
\* along one axis, for all versions
BentBy(i, v, axis, k) ==
  LET sn == 5 + Rnd(i, 2, IF v > 20 THEN 2 ELSE 6)
      p == Single(v, i * 59, sn, 1, Turn(i \div 39), [q \in 1..4 |-> 3 * sn + Rnd(i, 40 + q, 30)], 0, 255, 0, 0)
      c == p.codes[1]
      pl == [c.place EXCEPT !.bend = <<axis, k>>]
  IN [p EXCEPT !.codes = <<Code(v, c.l, c.mask, c.t, pl)>>]
ExtractBent(i) ==
  BentBy(i, 2 + ((i - 1) % 39), 1 + Rnd(i, 4, 2), <<0 - 6, 0 - 5, 0 - 4, 0 - 3, 0 - 2, 0 - 1, 1, 2, 3, 4, 5, 6>>[1 + Rnd(i, 3, 12)])
\* the contents around the last alignment pattern look like another one, as far as the real one
\* leaves room, a few modules away (the contents of a symbol are arbitrary)
Decoy(n, dx, dy) ==
  LET m == n - 7
      d(q) == LET x == q[1] - m - dx y == q[2] - m - dy
                  ax == IF x < 0 THEN 0 - x ELSE x
                  ay == IF y < 0 THEN 0 - y ELSE y
              IN IF ax > ay THEN ax ELSE ay
      free(q) == \/ q[1] < m - 2 \/ q[1] > m + 2 \/ q[2] < m - 2 \/ q[2] > m + 2
      cells == {q \in ((m + dx - 2)..(m + dx + 2)) \X ((m + dy - 2)..(m + dy + 2)) : q[1] < n /\ q[2] < n /\ free(q)}
  IN SetToSeq({<<q[1], q[2], IF d(q) = 1 THEN 0 ELSE 1>> : q \in cells})
DecoyAt == SetToSeq({<<x, y>> \in (0 - 4..4) \X (0 - 4..4) : x \in {0 - 4, 0 - 3, 0 - 2, 2, 3, 4} \/ y \in {0 - 4, 0 - 3, 0 - 2, 2, 3, 4}})
ExtractDecoy(i) ==
  LET k == <<0 - 6, 0 - 5, 0 - 4, 4, 5, 6>>[1 + Rnd(i, 61, 6)]
      axis == 1 + Rnd(i, 62, 2)
      \* the search starts on the other side of where the pattern was moved to
      near == LET a == IF k > 0 THEN 0 - 3 ELSE 3 b == Rnd(i, 63, 5) - 2 IN IF axis = 1 THEN <<a, b>> ELSE <<b, a>>
      p == CASE i % 4 = 0 -> ExtractSkewed(i + 11000) [] i % 4 = 1 -> ExtractWide(i + 13000)
             [] i % 4 >= 2 -> BentBy(i + 12000, 2 + Rnd(i, 64, 12), axis, k)
      c == p.codes[1]
      at == IF i % 4 = 2 THEN near ELSE DecoyAt[1 + ((i * 37) % Len(DecoyAt))]
  IN [p EXCEPT !.codes = <<c @@ [patch |-> Decoy(ModulesOf(c.v), at[1], at[2])]>>]
\* the code leaves the picture on some side: cut 1 or more modules off
OffImage(i) ==
  LET v == 1 + Rnd(i, 1, 12)
      sn == 3 + Rnd(i, 2, 4)
      p == Single(v, i * 29, sn, 1, Turn(i \div 4), <<2 * sn, 2 * sn, 2 * sn, 2 * sn>>, 0, 255, 0, 0)
      cut == 3 * sn + Rnd(i, 3, 12 * sn)          \* pixels taken away; the margin is 2 modules
      left == IF i % 4 = 0 THEN cut ELSE 0
      top == IF i % 4 = 1 THEN cut ELSE 0
      right == IF i % 4 = 2 THEN cut ELSE 0
      bottom == IF i % 4 = 3 THEN cut ELSE 0
      c == p.codes[1]
      pl == [c.place EXCEPT !.ox = @ - 2 * left, !.oy = @ - 2 * top]
  IN [Picture(p.w - left - right, p.h - top - bottom, 0, 255, <<Code(c.v, c.l, c.mask, c.t, pl)>>) EXCEPT !.off = TRUE]

\* a tilted, skewed or fractional code that leaves the picture by a few pixels on any side (nothing may panic)
Cut(i) ==
  LET v == 1 + Rnd(i, 1, 9)
      f == IF i % 4 = 0 THEN Fractions[1 + Rnd(i, 2, Len(Fractions))] ELSE <<3 + Rnd(i, 2, 4), 1>>
      q == IF v > 3 /\ i % 3 = 0 THEN SkewSeq[1 + Rnd(i, 3, Len(SkewSeq))] ELSE <<0, 0>>
      rot == IF i % 5 = 0 \/ q # <<0, 0>> THEN Turn(i \div 5) ELSE Compose(Turn(i \div 5), Tilts[1 + Rnd(i, 4, 7)])
      p == Single(v, i * 43, f[1], f[2], rot, <<0, 0, 0, 0>>, 0, 255, q[1], q[2])
      m == (f[1] + f[2] - 1) \div f[2]
      cut(k) == Rnd(i, 10 + k, 5 * m) - 2 * m
      left == cut(1)
      top == cut(2)
      right == cut(3)
      bottom == cut(4)
      c == p.codes[1]
      pl == [c.place EXCEPT !.ox = @ - 2 * left, !.oy = @ - 2 * top]
  IN [Picture(p.w - left - right, p.h - top - bottom, 0, 255, <<Code(c.v, c.l, c.mask, c.t, pl)>>) EXCEPT !.off = TRUE]

(* ---- C14: several codes --------------------------------------------------- *)
\* codes side by side in a row or column, gap in pixels, each centred in its cell
Several(i) ==
  LET k == 2 + Rnd(i, 1, 3)
      s(j) == i * 37 + j * 5
      v == [j \in 1..k |-> 1 + Rnd(s(j), 1, IF i % 4 = 0 THEN 10 ELSE IF i % 10 = 5 THEN 40 ELSE 4)]
      same == i % 3 = 0
      sn == [j \in 1..k |-> 3 + Rnd(IF same THEN i ELSE s(j), 2, 4)]
      r == [j \in 1..k |-> ModulesOf(v[j]) * sn[j]]            \* pixels
      gap == 4 * (IF same THEN sn[1] ELSE 7) + Rnd(i, 3, 30)
      width(j) == FoldLeft(LAMBDA a, q : a + r[q] + gap, gap, [q \in 1..j |-> q])
      big == FoldLeft(LAMBDA a, q : IF r[q] > a THEN r[q] ELSE a, 0, [q \in 1..k |-> q])
      high == big + 2 * gap
      along(j) == 2 * (width(j) - gap) - r[j]
      across(j) == 2 * gap + r[j] + 2 * Rnd(s(j), 4, big - r[j] + 1)
      row == i % 2 = 0
      code(j) == Code(v[j], 1 + Rnd(s(j), 5, 4), Rnd(s(j), 6, 8), Rnd(s(j), 7, 2),
                      Place(sn[j], 1, Turn(Rnd(s(j), 8, 4)),
                            IF row THEN along(j) ELSE across(j), IF row THEN across(j) ELSE along(j), 0, 0))
      w == width(k)
  IN Picture(IF row THEN w ELSE high, IF row THEN high ELSE w, 0, 255, [j \in 1..k |-> code(j)])

\* many codes, in the cells of a grid
Crowd(i) ==
  LET cols == 2 + Rnd(i, 1, 3)
      rows == 2 + Rnd(i, 2, 2)
      k == cols * rows
      s(j) == i * 79 + j * 5
      same == i % 2 = 0
      v == [j \in 1..k |-> 1 + Rnd(s(j), 1, 3)]
      sn == [j \in 1..k |-> 3 + Rnd(IF same THEN i ELSE s(j), 2, 3)]
      r == [j \in 1..k |-> ModulesOf(v[j]) * sn[j]]
      cell == FoldLeft(LAMBDA a, q : IF r[q] > a THEN r[q] ELSE a, 0, [q \in 1..k |-> q]) + 4 * 6 + Rnd(i, 3, 20)
      at(j, c, q) == 2 * (c * cell + 12) + r[j] + 2 * Rnd(s(j), q, cell - r[j] - 23)
      code(j) == Code(v[j], 1 + Rnd(s(j), 5, 4), Rnd(s(j), 6, 8), Rnd(s(j), 7, 2),
                      Place(sn[j], 1, Turn(Rnd(s(j), 8, 4)), at(j, (j - 1) % cols, 9), at(j, (j - 1) \div cols, 10), 0, 0))
  IN Picture(cols * cell, rows * cell, 0, 255, [j \in 1..k |-> code(j)])

\* a damage plan for block 1 beyond repair: Reed-Solomon codes are linear, so the error pattern alone decides
Spread(s, n, len) == LET step == 1 + Rnd(s, 1, 3) IN
  [k \in 1..n |-> <<1 + ((Rnd(s, 2, len) + k * (IF (len % step) = 0 THEN 1 ELSE step)) % len), 1 + Rnd(s, 10 + k, 255)>>]
Word(pat, len) == [k \in 1..len |-> FoldLeft(LAMBDA a, e : IF e[1] = k THEN BXor(a, e[2]) ELSE a, 0, pat)]
BeyondRepair(v, l, pat) ==
  \A r \in {Decode(Word(pat, BlockTotal(v, l, 1)), Ec(v, l), Cap(v, l))} : ~r.ok
Broken(c, s) ==
  LET len == BlockTotal(c.v, c.l, 1)
      t == Cap(c.v, c.l)
      room == (len - t - 1)
      n == t + 1 + Rnd(s, 3, IF room < 8 THEN room ELSE 8)
      pat == TLCEval(Spread(s, n, len))
      all == [k \in 1..len |-> <<k, 1 + Rnd(s, 40 + k, 255)>>]
      use == IF BeyondRepair(c.v, c.l, pat) THEN pat ELSE all
  IN [c EXCEPT !.plan = [k \in 1..Len(use) |-> <<1, use[k][1], use[k][2]>>], !.readable = FALSE]
\* a plan within capacity
Scratched(c, s) ==
  LET pat == TLCEval(Spread(s, 1 + Rnd(s, 4, Cap(c.v, c.l)), BlockTotal(c.v, c.l, 1)))
  IN [c EXCEPT !.plan = [k \in 1..Len(pat) |-> <<1, pat[k][1], pat[k][2]>>]]
\* one of several codes broken, another scratched
Damaged(i) ==
  LET p == Several(i + 1000)
      k == Len(p.codes)
      b == 1 + (i % k)
      c == 1 + ((i + 1) % k)
  IN [p EXCEPT !.codes[b] = TLCEval(Broken(@, i)), !.codes[c] = TLCEval(IF i % 2 = 0 THEN Scratched(@, i) ELSE @)]

(* ---- C18: specks ------------------------------------------------------------ *)
\* isolated: pairwise at least two modules apart
Isolated(s, n, w, h, d) ==
  FoldLeft(LAMBDA a, j : LET x == Rnd(s, 2 * j, w)
                             y == Rnd(s, 2 * j + 1, h)
                         IN IF \E q \in 1..Len(a) : (a[q][1] - x) * (a[q][1] - x) + (a[q][2] - y) * (a[q][2] - y) < d * d
                            THEN a ELSE Append(a, <<x, y>>),
           <<>>, [j \in 1..n |-> j])
Specks(i) ==
  LET v == 1 + Rnd(i, 1, 4)
      sn == 10 + Rnd(i, 2, 5)
      p == Single(v, i * 41, sn, 1, Turn(i), Margins(i, 3 * sn), 0, 255, 0, 0)
  IN [p EXCEPT !.specks = TLCEval(Isolated(i, <<1, 3, 10, 30>>[1 + (i % 4)], p.w, p.h, 2 * sn))]
\* one speck in every cell of a lattice, at least two thirds of a cell from any other
Lattice(s, w, h, d) ==
  [k \in 1..((w \div d) * (h \div d)) |->
     LET i == (k - 1) % (w \div d)
         j == (k - 1) \div (w \div d)
     IN << i * d + 1 + Rnd(s, 3 * k, d \div 3), j * d + 1 + Rnd(s, 3 * k + 1, d \div 3)>>]
Peppered(i) ==
  LET v == 1 + Rnd(i, 1, 3)
      sn == 10 + Rnd(i, 2, 11)
      p == Single(v, i * 61, sn, 1, Turn(i), Margins(i, 3 * sn), 0, 255, 0, 0)
  IN [p EXCEPT !.specks = TLCEval(Lattice(i, p.w, p.h, 3 * sn + 2 + 3 * (i % 4)))]
PepperedAny(i) ==
  LET v == 4 + Rnd(i, 1, 37)
      sn == 10 + Rnd(i, 2, 3)
      p == Single(v, i * 63, sn, 1, Turn(i), Margins(i, 3 * sn), 0, 255, 0, 0)
  IN [p EXCEPT !.specks = TLCEval(Lattice(i, p.w, p.h, 3 * sn + 2 + 3 * (i % 4)))]
\* three specks on each finder pattern, on the line through its centre and the two lines next to it (a column,
\* a row or a diagonal), two modules apart, each of them late in a run so that it can be told from a run
AimedSpots == << <<0, 2, 6>>, <<0, 3, 6>>, <<0, 4, 6>>, <<1, 3, 5>>, <<1, 4, 6>>, <<0, 2, 4>>, <<2, 4, 6>>, <<1, 3, 6>>, <<0, 2, 5>> >>
Orders == << <<0, 1, 2>>, <<0, 2, 1>>, <<1, 0, 2>>, <<1, 2, 0>>, <<2, 0, 1>>, <<2, 1, 0>> >>
Aimed(i) ==
  LET v == 1 + Rnd(i, 1, 4)
      sn == 14 + Rnd(i, 2, 13)
      p == Single(v, i * 67, sn, 1, Turn(i), Margins(i, 3 * sn), 0, 255, 0, 0)
      f == p.codes[1].finders
      of(c, k) ==                       \* the specks of the finder with centre c / den
        LET cx == c[1] \div f.den
            cy == c[2] \div f.den
            spot == AimedSpots[1 + Rnd(i, 10 + k, Len(AimedSpots))]
            ord == Orders[1 + Rnd(i, 20 + k, 6)]
            axis == Rnd(i, 30 + k, 3)
            late == 12 + Rnd(i, 40 + k, sn - 13)
            at(j) == spot[j] * sn + late + (0 - 7 * sn) \div 2     \* along the line, from the centre
            off(j) == ord[j] - 1
        IN [j \in 1..3 |-> CASE axis = 0 -> <<cx + off(j), cy + at(j)>>
                             [] axis = 1 -> <<cx + at(j), cy + off(j)>>
                             [] OTHER -> <<cx + off(j) + at(j), cy + at(j)>>]
  IN [p EXCEPT !.specks = TLCEval(of(f.tl, 1) \o of(f.tr, 2) \o of(f.bl, 3))]
\* one speck on each finder pattern, likewise on the line through its centre or the lines next to it, anywhere
Apart(i) ==
  LET v == 1 + Rnd(i, 1, 4)
      sn == 10 + Rnd(i, 2, 13)
      p == Single(v, i * 71, sn, 1, Turn(i), Margins(i, 3 * sn), 0, 255, 0, 0)
      f == p.codes[1].finders
      of(c, k) ==
        LET cx == c[1] \div f.den
            cy == c[2] \div f.den
            axis == Rnd(i, 10 + k, 3)
            off == Rnd(i, 20 + k, 3) - 1
            at == Rnd(i, 30 + k, 7 * sn) - (7 * sn) \div 2
        IN CASE axis = 0 -> <<cx + off, cy + at>> [] axis = 1 -> <<cx + at, cy + off>> [] OTHER -> <<cx + off + at, cy + at>>
      in(q) == q[1] >= 0 /\ q[2] >= 0 /\ q[1] < p.w /\ q[2] < p.h
  IN [p EXCEPT !.specks = TLCEval(SelectSeq(<<of(f.tl, 1), of(f.tr, 2), of(f.bl, 3)>>, in))]
\* every single pixel of a picture
SweepRows == 6
SweepCount == IF Thorough THEN 2 * 41 * 6 ELSE 41
Sweep(i) ==
  LET q == (i - 1) \div 41                      \* which picture
      v == 1 + (q % 2)
      sn == 10 + (q \div 2)
      p == Single(v, 7 * q + 3, sn, 1, Turn(q), <<18, 18, 18, 18>>, 0, 255, 0, 0)
      r == (i - 1) % 41
      step == (p.h + 40) \div 41
      lo == r * step
      hi == IF (r + 1) * step > p.h THEN p.h ELSE (r + 1) * step
  IN [p EXCEPT !.sweep = [k \in 1..(IF hi > lo THEN hi - lo ELSE 0) |-> lo + k - 1]]

\* each lying in its own way, in gray levels, and some of them seen through a film
Mixed(i) ==
  LET k == 2 + Rnd(i, 1, 2)
      s(j) == i * 47 + j * 5
      kind == [j \in 1..k |-> Rnd(s(j), 1, 6)]
      v == [j \in 1..k |-> 2 + Rnd(s(j), 2, 6)]
      n(j) == ModulesOf(v[j])
      p0 == [j \in 1..k |->
        LET whole == 5 + Rnd(s(j), 3, 5)
            f == IF kind[j] = 1 THEN Fractions[1 + Rnd(s(j), 3, Len(Fractions))] ELSE <<whole, 1>>
            rot == IF kind[j] = 2 THEN Compose(Turn(Rnd(s(j), 4, 4)), Tilts[2 + Rnd(s(j), 5, 6)]) ELSE Turn(Rnd(s(j), 4, 4))
            q == Place(f[1], f[2], rot, 0, 0, 0, 0)
        IN IF kind[j] = 3 THEN [q EXCEPT !.bend = <<1 + Rnd(s(j), 6, 2), Rnd(s(j), 7, 7) - 3>>] ELSE q]
      r == [j \in 1..k |-> Reach(p0[j], n(j)) + (IF kind[j] = 3 THEN 20 ELSE 0)]      \* pixels
      gap == 45 + Rnd(i, 3, 30)
      width(j) == FoldLeft(LAMBDA a, q : a + r[q] + gap, gap, [q \in 1..j |-> q])
      big == FoldLeft(LAMBDA a, q : IF r[q] > a THEN r[q] ELSE a, 0, [q \in 1..k |-> q])
      high == big + 2 * gap
      along(j) == 2 * (width(j) - gap) - r[j]
      across(j) == 2 * gap + r[j] + 2 * Rnd(s(j), 8, big - r[j] + 1)
      row == i % 2 = 0
      g == Grays[1 + Rnd(i, 12, Len(Grays))]
      plain == i % 4 < 2
      black == i % 4 = 0
      code(j) == LET c == Code(v[j], 1 + Rnd(s(j), 9, 4), Rnd(s(j), 10, 8), Rnd(s(j), 11, 2),
                               [p0[j] EXCEPT !.ox = IF row THEN along(j) ELSE across(j), !.oy = IF row THEN across(j) ELSE along(j)])
                 IN IF kind[j] = 4 /\ black THEN Scratched(c, s(j))   \* gray or dim, a light stretch can already cost some modules
                     ELSE IF kind[j] = 5 /\ i % 3 = 0 THEN Broken(c, s(j)) ELSE c
      w == IF row THEN width(k) ELSE high
      h == IF row THEN high ELSE width(k)
      p == IF plain THEN Picture(w, h, IF black THEN 0 ELSE g[1], IF black THEN 255 ELSE g[2], [j \in 1..k |-> code(j)])
           ELSE Picture(w, h, Rnd(i, 13, 40), 255 - Rnd(i, 14, 40), [j \in 1..k |-> code(j)])
  IN IF plain THEN p
     ELSE [p EXCEPT !.film = <<Slope(Rnd(i, 8, 12), p.w, p.h, 60 + Rnd(i, 15, 40)) @@ [blur |-> 0, grain |-> Rnd(i, 7, 8), s |-> Rnd(i, 9, 46000)]>>]

(* ---- C23: stains ------------------------------------------------------------ *)
\* a stain is a sequence of rows <<y, x1, x2>>; shapes by their size r, around the pixel (cx, cy)
Root(q) == CHOOSE k \in 0..200 : k * k <= q /\ (k + 1) * (k + 1) > q
Shape(s, kind, cx, cy, r) ==
  CASE kind = 0 -> [j \in 1..(2 * r + 1) |-> LET d == j - 1 - r  k == Root(r * r - d * d) IN <<cy + d, cx - k, cx + k>>]
    [] kind = 1 -> LET a == 1 + Rnd(s, 1, 3)  b == 1 + Rnd(s, 2, 3)           \* a rectangle
                   IN [j \in 1..(b * r + 1) |-> <<cy + j - 1 - (b * r) \div 2, cx - (a * r) \div 2, cx + (a * r + 1) \div 2>>]
    [] OTHER -> LET t == Rnd(s, 1, 4)  k == Rnd(s, 2, 13) - 6                  \* a scratch, steep or flat
                IN IF kind = 2 THEN [j \in 1..(6 * r + 1) |-> LET x == cx + (((j - 1 - 3 * r) * k) \div 7) IN <<cy + j - 1 - 3 * r, x, x + t>>]
                   ELSE LET rows == TLCEval({((x * k) \div 7) + d : x \in (0 - 3 * r)..(3 * r), d \in 0..t})
                            of(d) == {x \in (0 - 3 * r)..(3 * r) : d - ((x * k) \div 7) \in 0..t}
                            low(S) == CHOOSE x \in S : \A z \in S : x <= z
                            high(S) == CHOOSE x \in S : \A z \in S : x >= z
                        IN LET q == SetToSeq(rows) IN [j \in 1..Len(q) |-> <<cy + q[j], cx + low(of(q[j])), cx + high(of(q[j]))>>]
\* the modules it touches, or comes within a pixel of; or the modules around them where the symbol is bent or seen at
\* an angle, by less than a module (the exact numbers are too large for TLC)
Touched(pl, f, rows) ==
  LET at == UNION {{ModuleOf(f, 2 * x + 1 - pl.ox, 2 * y + 1 - pl.oy) : x \in (rows[j][2] - 1)..(rows[j][3] + 1), y \in (rows[j][1] - 1)..(rows[j][1] + 1)} : j \in 1..Len(rows)}
  IN IF pl.g = 0 /\ pl.h = 0 /\ pl.bend[2] = 0 THEN at
     ELSE UNION {{<<q[1] + dx, q[2] + dy>> : dx \in (0 - 1)..1, dy \in (0 - 1)..1} : q \in at}
\* outside the symbol, off the light surroundings of the finder patterns
Aside(n, q) ==
  /\ q[1] < 0 \/ q[2] < 0 \/ q[1] >= n \/ q[2] >= n
  /\ ~(q[1] <= 10 /\ q[2] <= 10) /\ ~(q[1] >= n - 11 /\ q[2] <= 10) /\ ~(q[1] <= 10 /\ q[2] >= n - 11)
Fit(v, l, hit, io) == \A b \in 1..NB(v, l) : Cardinality({k \in hit : io[k][1] = b}) <= Cap(v, l)
\* stains of at most `most` modules across on the code c of picture p
Stains(p, s, number, most) ==
  LET c == p.codes[1]
      v == c.v
      n == ModulesOf(v)
      io == TLCEval(InterleaveOrder(v, c.l))
      order == TLCEval(DataOrder(v))
      index == TLCEval([m \in {order[k] : k \in 1..Len(order)} |-> 0])
      word == TLCEval(FoldLeft(LAMBDA a, k : [a EXCEPT ![order[k]] = 1 + ((k - 1) \div 8)], index, [k \in 1..Len(order) |-> k]))
      px == (c.place.sn + c.place.sd - 1) \div c.place.sd
      flat == TLCEval(Affine(c.place, n))
      one(a, j) ==
        LET t == s * 11 + j
            m == order[1 + Rnd(t, 5, Len(order))]
            at == PointNum(c.place, n, 2 * (m % n) + 1, 2 * (m \div n) + 1)
            cx == at[1] \div PointDen(c.place)
            cy == at[2] \div PointDen(c.place)
            kind == Rnd(t, 6, 4)
            full == 1 + Rnd(t, 7, most * px)
            step == IF full < 8 THEN 1 ELSE full \div 8
            try(z, k) ==
              IF z.done \/ full - k * step < 0 THEN z
              ELSE CHOOSE y \in {LET inside == {q \in touched : ~Aside(n, q)}
                                     clear == \A q \in inside : /\ q[1] >= 0 /\ q[2] >= 0 /\ q[1] < n /\ q[2] < n
                                                                /\ q[2] * n + q[1] \in DOMAIN word
                                     hit == IF clear THEN a.hit \cup ({word[q[2] * n + q[1]] : q \in inside} \cap (1..Len(io))) ELSE {}
                                 IN IF clear /\ Fit(v, c.l, hit, io)
                                    THEN [done |-> TRUE, hit |-> hit, rows |-> rows] ELSE z :
                                   rows \in {Shape(t, kind, cx, cy, full - k * step)},
                                   touched \in {Touched(c.place, flat, Shape(t, kind, cx, cy, full - k * step))}} : TRUE
            got == FoldLeft(try, [done |-> FALSE, hit |-> a.hit, rows |-> <<>>], [k \in 1..9 |-> k - 1])
            g == CASE Rnd(t, 8, 5) = 0 -> 60 + Rnd(t, 9, 140) [] Rnd(t, 8, 5) \in {1, 2} -> 255 [] OTHER -> 0
        IN CHOOSE z \in {[hit |-> y.hit, ops |-> a.ops \o [k \in 1..Len(y.rows) |->
                 LET r == y.rows[k] IN
                 IF j % 4 = 3 THEN <<"noise", r[2], r[1], r[3] - r[2] + 1, 1, 500, g, t + k>> ELSE <<"fill", r[2], r[1], r[3] - r[2] + 1, 1, g>>]] : y \in {got}} : TRUE
  IN FoldLeft(one, [hit |-> {}, ops |-> <<>>], [j \in 1..number |-> j])
Soiled(i) ==
  LET kind == i % 6
      v == 1 + Rnd(i, 1, IF i % 20 = 4 THEN 40 ELSE IF kind = 0 THEN 12 ELSE 7)
      sn == 4 + Rnd(i, 2, 4)
      p == CASE kind = 1 -> SteepTilt(i + 17000) [] kind = 2 -> (IF i % 12 = 2 THEN Tilted(i + 15000) ELSE TiltedAny(i + 15000)) [] kind = 3 -> BentBy(i, 2 + Rnd(i, 1, 8), 1 + (i % 2), Rnd(i, 3, 7) - 3)
             [] kind = 4 -> ExtractSkewed(i + 16000)
             [] OTHER -> Single(v, i * 31, sn, 1, Turn(i), Margins(i, 6 * sn), 0, 255, 0, 0)
  IN CHOOSE z \in {[q EXCEPT !.ops = st.ops] @@ [hit |-> Cardinality(st.hit)] : q \in {p}, st \in {Stains(p, i, 1 + Rnd(i, 4, 5), 2 + Rnd(i, 5, 5))}} : TRUE

\* bursts: modules in a row of the way they are read, as far as every block can bear it
Burst(i) ==
  LET v == 1 + Rnd(i, 1, IF i % 4 = 0 THEN 40 ELSE 12)
      sn == 3 + Rnd(i, 2, IF v > 12 THEN 1 ELSE 3)
      p == IF i % 5 = 0 /\ v <= 10 THEN BentBy(i, v + 1, 1 + (i % 2), Rnd(i, 3, 9) - 4) ELSE Single(v, i * 41, sn, 1, Turn(i), Margins(i, 6 * sn), 0, 255, 0, 0)
      c == p.codes[1]
      n == ModulesOf(c.v)
      colour(t, k) == CASE Rnd(t, 3, 3) = 0 -> 0 [] Rnd(t, 3, 3) = 1 -> 1 [] OTHER -> Rnd(t, 10 + k, 2)
      one(io, order, a, j) ==
        LET t == i * 7 + j
            first == Rnd(t, 1, Len(io))             \* codewords first + 1 ..
            \* how many more codewords before a block is full
            far == FoldLeft(LAMBDA z, k : IF z.full THEN z
                              ELSE LET b == io[k][1] IN
                                   IF z.n[b] = Cap(c.v, c.l) THEN [z EXCEPT !.full = TRUE] ELSE [z EXCEPT !.n[b] = @ + 1, !.k = k],
                            [full |-> FALSE, n |-> a.n, k |-> first], [k \in 1..(Len(io) - first) |-> first + k])
            \* sometimes the whole way, sometimes a part of it
            last == IF Rnd(t, 2, 2) = 0 THEN far.k ELSE first + Rnd(t, 4, far.k - first + 1)
            m(k) == order[k]
        IN [n |-> FoldLeft(LAMBDA z, k : [z EXCEPT ![io[k][1]] = @ + 1], a.n, [k \in 1..(last - first) |-> first + k]),
            patch |-> a.patch \o [k \in 1..(8 * (last - first)) |-> LET at == m(8 * first + k) IN <<at % n, at \div n, colour(t, k)>>]]
  IN CHOOSE z \in {[p EXCEPT !.codes = <<c @@ [patch |-> got.patch]>>] :
       got \in {FoldLeft(LAMBDA a, j : one(io, order, a, j), [n |-> [b \in 1..NB(c.v, c.l) |-> 0], patch |-> <<>>], [j \in 1..(1 + Rnd(i, 5, 3)) |-> j]) :
                  io \in {InterleaveOrder(c.v, c.l)}, order \in {DataOrder(c.v)}}} : TRUE

(* ---- small pictures pixel by pixel, to check the drawing of the harness ----- *)
Cells(p, c, f, n) ==
  p @@ [cells |-> [k \in 1..(p.w * p.h) |->
          LET X == 2 * ((k - 1) % p.w) + 1 - c.place.ox
              Y == 2 * ((k - 1) \div p.w) + 1 - c.place.oy
              m == ModuleOf(f, X, Y)
          IN IF m[1] < 0 \/ m[2] < 0 \/ m[1] >= n \/ m[2] >= n THEN 0 ELSE 1 + m[2] * n + m[1]]]
DrawnPicture(i) ==
  LET bent(q) == LET c == q.codes[1]
                 IN [q EXCEPT !.codes = <<Code(c.v, c.l, c.mask, c.t, [c.place EXCEPT !.bend = <<1 + ((i \div 4) % 2), 1 + (i % 9) - 5>>])>>]
      rot == IF (i % 4) # 1 THEN Turn(i \div 2) ELSE Compose(Turn(i), Tilts[1 + (i % 7)])
      f == << <<2, 1>>, <<3, 1>>, <<5, 2>> >>[1 + (i % 3)]
      p == Single(1 + (i % 2), i, f[1], f[2], rot, Margins(i, 6), 10, 250,
                  IF i % 4 = 3 THEN 0 - 1 ELSE 0, IF i % 4 = 3 THEN 1 ELSE 0)
  IN IF i % 4 = 2 THEN bent(p) ELSE p
Drawn(i) ==
  CHOOSE z \in {Cells(p, p.codes[1], f, n) : p \in {DrawnPicture(i)},
                  f \in {Coefficients(DrawnPicture(i).codes[1].place, ModulesOf(1 + (i % 2)))},
                  n \in {ModulesOf(1 + (i % 2))}} : TRUE

=============================================================================
