---------------------------- MODULE ContainersMC ----------------------------
(* Every small picture in every representation shows the picture; so does a    *)
(* view of a view. Every gray value has colours, and all of them show it.      *)
EXTENDS Containers, FiniteSets
VARIABLES g, c7, pic, dx, dy, right, below, alpha, mixed
Init == \E t \in {<<Colours(0), Colours(7), Colours(255)>>} :
        /\ c7 = t
        /\ g \in 0..255 /\ pic \in [1..2 -> [1..2 -> {7, 255}]]
        /\ dx \in 0..1 /\ dy \in 0..1 /\ right \in 0..1 /\ below \in 0..1
        /\ alpha \in {0, 255} /\ mixed \in BOOLEAN
        /\ (g = 0 \/ (dx = 0 /\ dy = 0 /\ right = 0 /\ below = 0 /\ alpha = 0 /\ mixed /\ pic = [y \in 1..2 |-> [x \in 1..2 |-> 7]]))
Spec == Init /\ [][FALSE]_<<g, c7, pic, dx, dy, right, below, alpha, mixed>>
ColoursShow == pic # [y \in 1..2 |-> [x \in 1..2 |-> 7]] \/ \A c \in {Colours(g)} : Len(c) = ColourCount /\ \A k \in 1..ColourCount : Luma(c[k]) = g
Colour(v, x, y) == LET c == IF v = 0 THEN c7[1] ELSE IF v = 7 THEN c7[2] ELSE c7[3] IN IF mixed THEN c[1 + ((x + 3 * y) % ColourCount)] ELSE <<v, v, v>>
P == Parent(pic, dx, dy, right, below, Colour, LAMBDA x, y : alpha, LAMBDA x, y : <<<<99, x, y>>, 3>>)
Same == g # 0 \/
        /\ Shown(Sub(P, dx, dy, 2, 2)) = pic
        /\ Shown(Sub(Sub(P, 0, dy, 2 + dx, 2), dx, 0, 2, 2)) = pic
=============================================================================
