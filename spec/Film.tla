-------------------------------- MODULE Film --------------------------------
(* What a camera does to a picture: uneven light, blur and grain, in this      *)
(* order. A film is [a, bx, by, d, blur, grain, s]:                            *)
(*   light  (a + bx x + by y) / d at pixel (x, y)                              *)
(*   blur   every pixel becomes the mean of the pixels up to `blur` away in    *)
(*          each direction, as far as they are in the picture                  *)
(*   grain  up to `grain` is added or taken away, differently for each pixel   *)
(* All values are rounded down and kept within 0..255.                         *)
EXTENDS Integers, Sequences, SequencesExt

Clip(v) == IF v < 0 THEN 0 ELSE IF v > 255 THEN 255 ELSE v
Lit(f, v, x, y) == Clip((v * (f.a + f.bx * x + f.by * y)) \div f.d)
Hash(s, i) ==
  LET a == (s + (i % 46337) * 31 + (i \div 46337) * 7 + 7) % 46337
      b == (a * a + 12345) % 46337
      c == (b * 40503 + (i % 46337) * 3 + s) % 46337
      d == (c * c + b) % 46337
  IN (d * 40503 + c) % 46337
Grained(f, v, k) == Clip(v + (Hash(f.s, k) % (2 * f.grain + 1)) - f.grain)
\* g: gray values row by row; the mean around pixel k (from 0)
Mean(g, w, h, r, k) ==
  LET x == k % w
      y == k \div w
      x1 == IF x < r THEN 0 ELSE x - r
      y1 == IF y < r THEN 0 ELSE y - r
      x2 == IF x + r >= w THEN w - 1 ELSE x + r
      y2 == IF y + r >= h THEN h - 1 ELSE y + r
      nx == (x2 - x1 + 1)
      n == nx * (y2 - y1 + 1)
  IN FoldLeft(LAMBDA a, j : a + g[(y1 + (j - 1) \div nx) * w + x1 + ((j - 1) % nx) + 1], 0, [j \in 1..n |-> j]) \div n
\* the picture g (a tuple) as seen through f
Seen(f, g, w, h) ==
  LET each(F(_)) == FoldLeft(LAMBDA a, k : Append(a, F(k - 1)), <<>>, [k \in 1..(w * h) |-> k])
      lit(k) == Lit(f, g[k + 1], k % w, k \div w)
  IN CHOOSE z \in {each(LAMBDA k : Grained(f, IF f.blur = 0 THEN p[k + 1] ELSE Mean(p, w, h, f.blur, k), k)) : p \in {each(lit)}} : TRUE
=============================================================================
