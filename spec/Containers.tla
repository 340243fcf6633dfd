----------------------------- MODULE Containers -----------------------------
(* What a container shows. A container is a rectangle of a parent picture of   *)
(* pixels with red, green, blue and transparency values; all that a decoder    *)
(* may see of it is the gray value of the pixels in the rectangle.             *)
EXTENDS Integers, Sequences, TLC
Luma(p) == (2126 * p[1] + 7152 * p[2] + 722 * p[3]) \div 10000
\* colours of gray value g: take red and blue, find a green
GreenFor(g, r, b) == {x \in 0..255 : Luma(<<r, x, b>>) = g}
Candidates(g) == << <<g, g>>, <<0, 0>>, <<255, 255>>, <<0, 255>>, <<255, 0>>, <<40, 200>>, <<g, 0>>, <<128, g>> >>
\* two of the three channels equal, the third one at an end: {channels of the pair, value of the third}
Twins(g, third) ==
  {<<x, x, third>> : x \in {y \in 0..255 : Luma(<<y, y, third>>) = g}}
    \cup {<<third, x, x>> : x \in {y \in 0..255 : Luma(<<third, y, y>>) = g}}
TwinOr(g, third, red) ==         \* red: the single channel is the red one
  LET c == {p \in Twins(g, third) : IF red THEN p[2] = p[3] ELSE p[1] = p[2]}
  IN IF c = {} THEN <<g, g, g>> ELSE CHOOSE p \in c : TRUE
ColourCount == 12
Colours(g) ==      \* all of the candidates for which there is a green; the first is gray itself
  LET c == Candidates(g) IN
  [k \in 1..8 |-> IF GreenFor(g, c[k][1], c[k][2]) = {} THEN <<g, g, g>>
                  ELSE <<c[k][1], CHOOSE x \in GreenFor(g, c[k][1], c[k][2]) : TRUE, c[k][2]>>]
  \o <<TwinOr(g, 0, TRUE), TwinOr(g, 255, TRUE), TwinOr(g, 0, FALSE), TwinOr(g, 255, FALSE)>>
(* a representation of a picture pic (rows of gray values): offsets into the   *)
(* parent, what remains on the right and below, colours and transparency       *)
Parent(pic, dx, dy, right, below, colour(_, _, _), alpha(_, _), around(_, _)) ==
  LET h == Len(pic)
      w == Len(pic[1])
  IN [y \in 1..(dy + h + below) |-> [x \in 1..(dx + w + right) |->
        IF x > dx /\ x <= dx + w /\ y > dy /\ y <= dy + h
          THEN <<colour(pic[y - dy][x - dx], x, y), alpha(x, y)>>
          ELSE around(x, y)]]
Sub(parent, dx, dy, w, h) == [y \in 1..h |-> [x \in 1..w |-> parent[y + dy][x + dx]]]
Shown(view) == [y \in 1..Len(view) |-> [x \in 1..Len(view[1]) |-> Luma(view[y][x][1])]]
=============================================================================
