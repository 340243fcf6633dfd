-------------------------------- MODULE Pool --------------------------------
(* Pictures that differ in one respect each, many of them with the same        *)
(* dimensions: readable, unreadable, empty, with and without anything to find. *)
EXTENDS Integers, Sequences, TLC
S == INSTANCE Scenes
P == INSTANCE Pictures

With(p, l, m, t) == [p EXCEPT !.codes[1] = S!Code(@.v, l, m, t, @.place)]
\* a version 3 code of 116 pixels in a frame of 132
A(rot, left, top, dark, light) == With(S!Single(3, 5, 4, 1, S!Turn(rot), <<left, top, 16 - left, 16 - top>>, dark, light, 0, 0), 2, 3, 0)
Small(v, l, m) == LET d == 132 - 4 * S!ModulesOf(v) IN
  With(S!Single(v, 6, 4, 1, S!Turn(0), <<d \div 2, d \div 2, d - (d \div 2), d - (d \div 2)>>, 0, 255, 0, 0), l, m, 0)
Ops(p, ops) == p @@ [ops |-> ops]
Blank(w, h, ground, ops) == P!Picture(w, h, ground, ops)
Pictures ==
  << A(0, 8, 8, 0, 255),                                                        \* 1
     A(1, 8, 8, 0, 255),
     With(A(0, 8, 8, 0, 255), 3, 6, 0),
     [A(0, 8, 8, 0, 255) EXCEPT !.codes[1] = S!Broken(@, 7)],                     \* 4
     [A(0, 8, 8, 0, 255) EXCEPT !.codes[1] = S!Scratched(@, 8)],
     Blank(132, 132, 255, <<>>),
     Blank(132, 132, 0, <<>>),
     Blank(132, 132, 255, <<P!Noise(0, 0, 132, 132, 500, 0, 3)>>),                \* 8
     Ops(A(0, 8, 8, 0, 255), <<P!Invert(0, 0, 132, 132)>>),
     A(0, 9, 8, 0, 255),
     Blank(132, 132, 255, <<P!Finder(8, 8, 4, 4, 0), P!Finder(96, 8, 4, 4, 0), P!Finder(8, 96, 4, 4, 0)>>),
     Ops(A(0, 8, 8, 0, 255), <<P!Fill(90, 4, 40, 40, 255)>>),                     \* 12
     Blank(132, 132, 128, <<>>),
     A(0, 8, 8, 50, 200),
     Small(1, 1, 1), Small(2, 4, 5),                                             \* 15, 16
     With(A(0, 8, 8, 0, 255), 2, 3, 1),
     Ops(A(0, 8, 8, 0, 255), <<P!Fill(60, 60, 1, 1, 255), P!Fill(61, 60, 1, 1, 0)>>),
     Ops(A(2, 8, 8, 0, 255), <<P!Noise(0, 0, 132, 132, 30, 0, 9)>>),
     Blank(132, 132, 255, <<P!Finder(8, 8, 4, 4, 0), P!Finder(96, 8, 4, 4, 0), P!Finder(8, 96, 4, 4, 0), P!Noise(37, 37, 90, 90, 500, 0, 4)>>),  \* 20
     \* other dimensions
     Blank(0, 0, 255, <<>>), Blank(1, 1, 0, <<>>), Blank(0, 7, 255, <<>>),
     P!Strip(7), P!Strip(10),                                                    \* 24, 25
     S!Sizes(10), S!ExtractSkewed(5), S!Several(3), S!Several(6), S!Fractional(4), \* 26 - 30
     S!Tilted(3), P!Parts(5), P!Parts(17), P!Lattice(3), P!Corner(8),              \* 31 - 35
     A(0, 4, 12, 0, 40), S!Damaged(2), P!Noisy(4),                                \* 36 - 38
     A(0, 7, 9, 80, 110), Ops(A(3, 9, 9, 150, 175), <<P!Noise(0, 0, 132, 132, 80, 165, 5)>>),
     Blank(132, 97, 100, <<P!Noise(0, 0, 132, 97, 500, 115, 6), P!Noise(0, 0, 132, 97, 300, 90, 7)>>),
     P!CutOff(3), P!CutOff(9), P!CutOff(14),                                      \* 42 - 44
     \* not flat, by up to one and a half modules in each direction
     S!BentBy(1, 3, 1, 6), S!BentBy(2, 4, 1, 0 - 6), S!BentBy(3, 2, 2, 5), S!BentBy(4, 7, 2, 0 - 5), S!BentBy(5, 5, 1, 3), S!BentBy(6, 6, 2, 0 - 3) >>
Same == 1..20                  \* those of 132 by 132 pixels
Count == 50
=============================================================================
