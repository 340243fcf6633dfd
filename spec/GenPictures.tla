---------------------------- MODULE GenPictures ----------------------------
(* Writes the pictures of a family of Pictures.tla (FAMILY).                    *)
EXTENDS Pictures, Json

Out == IOEnv.OUT_DIR
Family == IOEnv.FAMILY
Scale == IF Thorough THEN 8 ELSE 1

Number ==
  CASE Family = "tiny" -> TinyCount [] Family = "sliding" -> 12 * 46
    [] Family = "strip" -> 400 * Scale [] Family = "bands" -> 300 * Scale [] Family = "scatter" -> 500 * Scale
    [] Family = "corner" -> 500 * Scale [] Family = "lattice" -> 24 * Scale [] Family = "parts" -> 480 * Scale
    [] Family = "noisy" -> 400 * Scale [] Family = "located" -> 4000 * Scale [] Family = "atcorner" -> 1000 * Scale
    [] Family = "matrix" -> 800 * Scale [] Family = "big" -> 32 * Scale [] Family = "cutoff" -> 300 * Scale
Case(i) ==
  CASE Family = "tiny" -> Tiny(i) [] Family = "sliding" -> Sliding(i) [] Family = "strip" -> Strip(i)
    [] Family = "bands" -> Bands(i) [] Family = "scatter" -> Scatter(i) [] Family = "corner" -> Corner(i)
    [] Family = "lattice" -> Lattice(i) [] Family = "parts" -> Parts(i) [] Family = "noisy" -> Noisy(i)
    [] Family = "located" -> Located(i) [] Family = "atcorner" -> AtCorner(i) [] Family = "matrix" -> Matrix(i)
    [] Family = "big" -> Big(i) [] Family = "cutoff" -> CutOff(i)

Chunk == 50
VARIABLES part, ok
Init == part \in 1..((Number + Chunk - 1) \div Chunk) /\ ok = TRUE
Next == /\ part > 0
        /\ \E lo \in {(part - 1) * Chunk} :
           \E cs \in {[i \in 1..(IF Number - lo < Chunk THEN Number - lo ELSE Chunk) |->
                        [name |-> Family \o "-" \o ToString(lo + i)] @@ Case(lo + i)]} :
             /\ JsonSerialize(Out \o "/" \o Family \o "-" \o ToString(part) \o ".json", cs)
             /\ ok' = \A i \in 1..Len(cs) : cs[i].w >= 0 /\ cs[i].h >= 0 /\ cs[i].w * cs[i].h < 4000000
        /\ part' = 0 - part
Spec == Init /\ [][Next]_<<part, ok>>
Reasonable == ok
=============================================================================
