-------------------------------- MODULE Scene --------------------------------
(* Pictures of symbols: where every module lies, and where the finder patterns *)
(* are. All arithmetic is exact.                                               *)
(*                                                                             *)
(* A placement says how a symbol of n modules lies in the picture:             *)
(*   sn, sd   module size sn/sd pixels                                         *)
(*   a, b, c  rotation by the angle with cosine a/c and sine b/c               *)
(*   ox, oy   centre of the symbol, in half pixels                             *)
(*   g, h     perspective: the lower right region is displaced (0 = none)      *)
(*   bend     <<axis, k>>: it is displaced along one axis (k = 0: not)         *)
(* A pixel (px, py) has the centre (2 px + 1, 2 py + 1) in half pixels.        *)
EXTENDS Integers, Sequences, TLC

ModulesOf(v) == 4 * v + 17
\* quarter turns clockwise as seen in the picture
Turn(k) == <<<<1, 0, 1>>, <<0, 1, 1>>, <<0 - 1, 0, 1>>, <<0, 0 - 1, 1>>>>[(k % 4) + 1]
\* small tilts by Pythagorean angles: about 2.7, 3.7, 4.6 degrees, both ways
Tilts == << <<1, 0, 1>>, <<840, 41, 841>>, <<480, 31, 481>>, <<312, 25, 313>>,
            <<840, 0 - 41, 841>>, <<480, 0 - 31, 481>>, <<312, 0 - 25, 313>> >>
\* rotation p followed by q
Compose(p, q) == <<p[1] * q[1] - p[2] * q[2], p[1] * q[2] + p[2] * q[1], p[3] * q[3]>>

(* The module a pixel belongs to is (floor(Nu / W), floor(Nv / Z)), where Nu,  *)
(* Nv, W and Z are linear in the pixel's centre (X, Y) relative to the         *)
(* symbol's centre: Nu = cu[1] X + cu[2] Y + cu[3], etc. W = Z but for bends.  *)
Affine(p, n) ==
  [cu |-> <<p.a * p.sd, p.b * p.sd, n * p.c * p.sn>>,
   cv |-> <<0 - p.b * p.sd, p.a * p.sd, n * p.c * p.sn>>,
   cw |-> <<0, 0, 2 * p.c * p.sn>>, cz |-> <<0, 0, 2 * p.c * p.sn>>]
Lin(x, f, y, e) == [i \in 1..3 |-> x * f[i] + y * e[i]]
(* Perspective: three finder centres stay where they are, and the fourth       *)
(* corner of their square (n - 7 modules wide) moves by -h / (g + h + d) and   *)
(* -g / (g + h + d) of its width, where d = 2 (n - 7): g = h = -1 moves it out *)
(* by about half a module each way.                                            *)
Perspective(p, n) ==
  LET f == Affine(p, n)
      d == 2 * (n - 7)
      k == <<0, 0, 2 * p.c * p.sn>>
      P == Lin(2, f.cu, 0 - 7, k)
      Q == Lin(2, f.cv, 0 - 7, k)
      R == 2 * (n - 7) * k[3]
      G == p.g + d
      H == p.h + d
      den == [i \in 1..3 |-> (IF i = 3 THEN G * H * R ELSE 0) - p.g * H * P[i] - p.h * G * Q[i]]
  IN [cu |-> Lin(7, den, 2 * (n - 7) * d * H, P),
      cv |-> Lin(7, den, 2 * (n - 7) * d * G, Q),
      cw |-> Lin(2, den, 0, den), cz |-> Lin(2, den, 0, den)]
(* Bend: the module rows get wider (k > 0) or narrower towards the bottom, so  *)
(* that the fourth corner of the square of finder centres moves by k/4 modules *)
(* along the rows; or the columns get longer towards the right.                *)
Bend(p, n) ==
  LET f == Affine(p, n)
      D == n - 7
      k == <<0, 0, 2 * p.c * p.sn>>
      P == Lin(2, f.cu, 0 - 7, k)                \* P / 2k, Q / 2k: modules from the top left finder centre
      Q == Lin(2, f.cv, 0 - 7, k)
      den(R) == [i \in 1..3 |-> (IF i = 3 THEN 8 * D * D * k[3] ELSE 0) + p.bend[2] * R[i]]
      bent(S, R) == Lin(8 * D * D, S, 7, den(R))
  IN IF p.bend[1] = 1 THEN [cu |-> bent(P, Q), cw |-> Lin(2, den(Q), 0, k), cv |-> f.cv, cz |-> f.cw]
                      ELSE [cu |-> f.cu, cw |-> f.cw, cv |-> bent(Q, P), cz |-> Lin(2, den(P), 0, k)]
Coefficients(p, n) == IF p.bend[2] # 0 THEN Bend(p, n) ELSE IF p.g = 0 /\ p.h = 0 THEN Affine(p, n) ELSE Perspective(p, n)

Apply(f, X, Y) == f[1] * X + f[2] * Y + f[3]
ModuleOf(f, X, Y) ==            \* <<column, row>>, outside 0..n-1 off the symbol
  <<Apply(f.cu, X, Y) \div Apply(f.cw, X, Y), Apply(f.cv, X, Y) \div Apply(f.cz, X, Y)>>
ModuleAt(p, n, px, py) == ModuleOf(Coefficients(p, n), 2 * px + 1 - p.ox, 2 * py + 1 - p.oy)

(* The picture coordinates of the symbol point (u/2, v/2): numerators over     *)
(* 2 * c * sd.                                                                 *)
PointNum(p, n, u2, v2) ==
  << p.ox * p.c * p.sd + (p.a * (u2 - n) - p.b * (v2 - n)) * p.sn,
     p.oy * p.c * p.sd + (p.b * (u2 - n) + p.a * (v2 - n)) * p.sn >>
PointDen(p) == 2 * p.c * p.sd
Finders(p, n) ==   \* top left, top right, bottom left
  [tl |-> PointNum(p, n, 7, 7), tr |-> PointNum(p, n, 2 * n - 7, 7),
   bl |-> PointNum(p, n, 7, 2 * n - 7), den |-> PointDen(p)]

\* half the picture width an upright or tilted symbol takes, rounded up (half pixels)
Reach(p, n) ==
  LET m == (IF p.a < 0 THEN 0 - p.a ELSE p.a) + (IF p.b < 0 THEN 0 - p.b ELSE p.b)
  IN (m * n * p.sn + p.c * p.sd - 1) \div (p.c * p.sd)
Inside(p, n, w, h) ==
  LET r == Reach(p, n) IN
  p.ox >= r /\ p.oy >= r /\ p.ox + r <= 2 * w /\ p.oy + r <= 2 * h
=============================================================================
