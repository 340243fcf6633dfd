------------------------------ MODULE Corners ------------------------------
(* Which three finder patterns of a picture are taken for the corners of a code *)
(* (C19). A pattern is <<x, y, s>>: its centre in half pixels and its module    *)
(* size in pixels. Three of them are a code when the module sizes are alike     *)
(* (within 10 %), the legs from one of them to the two others are about the     *)
(* same length (within 15 %) and about at a right angle (the sine is 0.95 or    *)
(* more), and the distance is that of a code, of version 1 at least. Centres    *)
(* are found by counting pixels, so that there is a margin around every         *)
(* threshold in which both answers are right: Must is the one side, May the     *)
(* other, and Must => May.                                                     *)
EXTENDS Integers, Sequences, FiniteSets

Abs(x) == IF x < 0 THEN 0 - x ELSE x
Dx(p, q) == q[1] - p[1]
Dy(p, q) == q[2] - p[2]
Square(p, q) == Dx(p, q) * Dx(p, q) + Dy(p, q) * Dy(p, q)
Cross(c, p, q) == Dx(c, p) * Dy(c, q) - Dy(c, p) * Dx(c, q)     \* positive: from p to q clockwise as seen
Dot(c, p, q) == Dx(c, p) * Dx(c, q) + Dy(c, p) * Dy(c, q)

(* Sizes: the first one met, line by line, is compared with the two others.    *)
Alike(a, b, pm) == Abs(a[3] - b[3]) * 1000 <= pm * (IF a[3] > b[3] THEN a[3] ELSE b[3])
MustSizes(t) == \A a, b \in t : Alike(a, b, 95)
\* the first line through its middle, in half pixels; reading line by line, one of FirstMet comes first
FirstLine(a) == a[2] - 3 * a[3]
FirstMet(t) == {a \in t : \A b \in t : FirstLine(a) <= FirstLine(b) + 2}
MaySizes(t) == \E a \in FirstMet(t) : \A b \in t : Alike(a, b, 105)

Legs(c, p, q, pm) == \A d, e \in {Square(c, p), Square(c, q)} : (d \div 16) * 1000 >= pm * (e \div 16)
Right(c, p, q, pm) == (Abs(Dot(c, p, q)) \div 4) * 1000 <= pm * (Abs(Cross(c, p, q)) \div 4)

(* The version by leg d (squared, half pixels) and module size m: the distance *)
(* of the centres is 4 v + 10 modules, rounded to the nearest such number;      *)
(* slack is in tenths of a module.                                             *)
Between(d2, m, v, slack) ==
  LET lo == 2 * m * (40 * v + 80 - slack)     \* tenths of half pixels
      hi == 2 * m * (40 * v + 120 + slack)
  IN (lo <= 0 \/ (lo \div 10) * (lo \div 10) <= d2) /\ d2 <= (hi \div 10 + 1) * (hi \div 10 + 1)
Versions(c, p, q, slack) == {v \in 1..60 : \E d2 \in {Square(c, p), Square(c, q)}, m \in {c[3], p[3], q[3]} : Between(d2, m, v, slack)}
\* every leg is clearly long enough: at least 12.3 modules
LongEnough(c, p, q) == \A d2 \in {Square(c, p), Square(c, q)}, m \in {c[3], p[3], q[3]} : d2 >= ((246 * m) \div 10 + 1) * ((246 * m) \div 10 + 1)

Must(c, p, q) == /\ MustSizes({c, p, q}) /\ Legs(c, p, q, 750) /\ Right(c, p, q, 305) /\ LongEnough(c, p, q)
May(c, p, q)  == /\ MaySizes({c, p, q}) /\ Legs(c, p, q, 695) /\ Right(c, p, q, 350) /\ Versions(c, p, q, 2) # {}

(* All (corner, top right, bottom left) of the patterns f: clockwise from the   *)
(* top right to the bottom left, as codes are never mirrored.                  *)
Triples(f) == {t \in (1..Len(f)) \X (1..Len(f)) \X (1..Len(f)) :
                 t[1] # t[2] /\ t[1] # t[3] /\ t[2] # t[3] /\ Cross(f[t[1]], f[t[2]], f[t[3]]) > 0 /\ May(f[t[1]], f[t[2]], f[t[3]])}
\* at most one of the three can be the corner
OneCorner(f) == \A t, u \in Triples(f) : {t[1], t[2], t[3]} = {u[1], u[2], u[3]} => t = u
Expected(f) == [t \in Triples(f) |->
                  [corner |-> t[1], right |-> t[2], below |-> t[3],
                   must |-> Must(f[t[1]], f[t[2]], f[t[3]]),
                   versions |-> Versions(f[t[1]], f[t[2]], f[t[3]], 2)]]
=============================================================================
