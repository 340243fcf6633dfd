------------------------------ MODULE Binarize ------------------------------
(* What the prepared picture has to show (C11). A picture is a function from   *)
(* 1..w*h (row by row) to gray values. It is cut into blocks of bs pixels; the *)
(* local mean of a block is taken over the blocks around it that exist.        *)
EXTENDS Integers, Sequences, SequencesExt, TLC

\* <<F(1), .., F(n)>>, put together in pieces (appending one by one takes quadratic time)
Tuple(n, F(_)) ==
  LET piece(q) == FoldLeft(LAMBDA a, k : Append(a, F(k)), <<>>, [k \in 1..(IF n - q * 300 < 300 THEN n - q * 300 ELSE 300) |-> q * 300 + k])
  IN FoldLeft(LAMBDA a, q : a \o piece(q - 1), <<>>, [q \in 1..((n + 299) \div 300) |-> q])

Stride(ms) == (ms - 1) \div 2
BlocksAcross(w, bs) == (w + bs - 1) \div bs
(* Documented as `ms` blocks, s before and s after the pixel's own one. The    *)
(* code (and the unit tests) use one less after it; `after` says which.        *)
Span(b, n, s, after) ==
  LET last == IF s = 0 THEN b ELSE b + s - 1 + after
  IN <<IF b < s THEN 0 ELSE b - s, IF last < n THEN last ELSE n - 1>>

\* totals per block: <<sum, number of pixels>>
BlockStat(g, w, h, bs, bx, by) ==
  LET x1 == IF (bx + 1) * bs < w THEN (bx + 1) * bs ELSE w
      y1 == IF (by + 1) * bs < h THEN (by + 1) * bs ELSE h
      row(y) == FoldLeft(LAMBDA a, x : a + g[y * w + x + 1], 0, [k \in 1..(x1 - bx * bs) |-> bx * bs + k - 1])
  IN <<FoldLeft(LAMBDA a, y : a + row(y), 0, [k \in 1..(y1 - by * bs) |-> by * bs + k - 1]),
       (x1 - bx * bs) * (y1 - by * bs)>>
Stats(g, w, h, bs) ==
  LET nx == BlocksAcross(w, bs)
      ny == BlocksAcross(h, bs)
  IN Tuple(nx * ny, LAMBDA k : BlockStat(g, w, h, bs, (k - 1) % nx, (k - 1) \div nx))
Local(st, nx, ny, bx, by, s, after) ==
  LET X == Span(bx, nx, s, after)
      Y == Span(by, ny, s, after)
      across == [k \in 1..(X[2] - X[1] + 1) |-> X[1] + k - 1]
      down == [k \in 1..(Y[2] - Y[1] + 1) |-> Y[1] + k - 1]
  IN FoldLeft(LAMBDA a, y : FoldLeft(LAMBDA c, x : <<c[1] + st[y * nx + x + 1][1], c[2] + st[y * nx + x + 1][2]>>, a, across),
              <<0, 0>>, down)
Locals(st, nx, ny, s, after) ==
  Tuple(nx * ny, LAMBDA k : Local(st, nx, ny, (k - 1) % nx, (k - 1) \div nx, s, after))
White(p, mean) ==
  IF mean[1] > 250 * mean[2] THEN 1
  ELSE IF mean[1] < 5 * mean[2] THEN 0
  ELSE IF p * mean[2] > mean[1] THEN 1 ELSE 0
Prepared(g, w, h, bs, loc) ==
  LET nx == BlocksAcross(w, bs)
  IN Tuple(w * h, LAMBDA k : White(g[k], loc[(((k - 1) \div w) \div bs) * nx + (((k - 1) % w) \div bs) + 1]))
=============================================================================
