----------------------------- MODULE GenScenes -----------------------------
(* Writes the pictures of a family of Scenes.tla (FAMILY).                      *)
EXTENDS Scenes, Json

Out == IOEnv.OUT_DIR
Family == IOEnv.FAMILY
Scale == IF Thorough THEN 6 ELSE 1

Number ==
  CASE Family = "sizes" -> 640 [] Family = "positions" -> 484 [] Family = "gray" -> 240
    [] Family = "fractional" -> 270 [] Family = "tilted" -> 300
    [] Family = "xupright" -> 480 [] Family = "xtilted" -> 300 [] Family = "xskewed" -> 384 [] Family = "peppered" -> 480 [] Family = "aimed" -> 3000 [] Family = "xwide" -> 144 [] Family = "xbent" -> 312 [] Family = "xdecoy" -> 1600
    [] Family = "xoff" -> 240 [] Family = "several" -> 300
    [] Family = "damaged" -> 160 [] Family = "specks" -> 240 [] Family = "skewed" -> 240 [] Family = "bent" -> 240 [] Family = "steep" -> 240 [] Family = "xturned" -> 288 [] Family = "far" -> 180 [] Family = "clutter" -> 900 [] Family = "crowd" -> 60 [] Family = "filmed" -> 1200 [] Family = "seen" -> 40
    [] Family = "sweep" -> SweepCount [] Family = "drawn" -> 24 [] Family = "cut" -> 600 [] Family = "soiled" -> 600 [] Family = "burst" -> 600 [] Family = "mixed" -> 900 [] Family = "fractions" -> 400 [] Family = "grays" -> 600 [] Family = "big" -> 48 [] Family = "apart" -> 600 [] Family = "peppers" -> 48 [] Family = "films" -> 200 [] Family = "tilts" -> 240 [] Family = "steeps" -> 200
Case(i) ==
  CASE Family = "sizes" -> Sizes(i) [] Family = "positions" -> Positions(i) [] Family = "gray" -> Gray(i)
    [] Family = "fractional" -> Fractional(i) [] Family = "tilted" -> Tilted(i)
    [] Family = "xupright" -> ExtractUpright(i) [] Family = "xtilted" -> ExtractTilted(i)
    [] Family = "xskewed" -> ExtractSkewed(i) [] Family = "peppered" -> Peppered(i) [] Family = "aimed" -> Aimed(i) [] Family = "xwide" -> ExtractWide(i) [] Family = "xbent" -> ExtractBent(i)
    [] Family = "xdecoy" -> ExtractDecoy(i)
    [] Family = "xoff" -> OffImage(i) [] Family = "several" -> Several(i)
    [] Family = "damaged" -> Damaged(i) [] Family = "skewed" -> ExtractSkewed(i + 7000) [] Family = "bent" -> ExtractBent(i + 5000) [] Family = "steep" -> SteepTilt(i) [] Family = "xturned" -> ExtractTurned(i) [] Family = "far" -> Far(i) [] Family = "clutter" -> Clutter(i) [] Family = "crowd" -> Crowd(i) [] Family = "filmed" -> Filmed(i) [] Family = "seen" -> SeenPicture(i)
    [] Family = "specks" -> Specks(i) [] Family = "sweep" -> Sweep(i)
    [] Family = "drawn" -> Drawn(i) [] Family = "cut" -> Cut(i) [] Family = "soiled" -> Soiled(i) [] Family = "burst" -> Burst(i) [] Family = "mixed" -> Mixed(i) [] Family = "fractions" -> AnyFraction(i) [] Family = "grays" -> AnyGray(i) [] Family = "big" -> Big(i) [] Family = "apart" -> Apart(i) [] Family = "peppers" -> PepperedAny(i) [] Family = "films" -> FilmedAny(i) [] Family = "tilts" -> TiltedAny(i) [] Family = "steeps" -> SteepAny(i)

Chunk == 20
Total == IF Family \in {"sweep", "drawn", "seen"} THEN Number ELSE Number * Scale
VARIABLES part, ok
Init == part \in 1..((Total + Chunk - 1) \div Chunk) /\ ok = TRUE
Next == /\ part > 0
        /\ \E lo \in {(part - 1) * Chunk} :
           \E cs \in {[i \in 1..(IF Total - lo < Chunk THEN Total - lo ELSE Chunk) |-> [name |-> Family \o "-" \o ToString(lo + i)] @@ Case(lo + i)]} :
             /\ JsonSerialize(Out \o "/" \o Family \o "-" \o ToString(part) \o ".json", cs)
             /\ ok' = \A i \in 1..Len(cs) : Family \in {"xoff", "cut"} \/ \A j \in 1..Len(cs[i].codes) :
                        Inside(cs[i].codes[j].place, ModulesOf(cs[i].codes[j].v), cs[i].w, cs[i].h)
        /\ part' = 0 - part
Spec == Init /\ [][Next]_<<part, ok>>
AllInside == ok
=============================================================================
