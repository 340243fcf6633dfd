#!/usr/bin/env python3
"""Writes MANIFEST.json from the list below (run after adding a check)."""
import json, os
T = "TLA+ specification checked with TLC; "
REPLAY = T + "cases and outcomes generated by TLC, replayed on the real code"
TRACE = T + "traces recorded from the real code checked against it"
NOTE = {
 "C01": (REPLAY, "Sampled contents for every version, level and mask, both text lengths, all segment kinds; expected text from the grammar in TLA+. The tables of the standard are themselves model checked (StdMC) and the harness's symbol assembly is compared with TLC's. Trusts TLC and the transcription of the standard."),
 "C02": (REPLAY, "Sampled damage for every version and level, at, below and across block boundaries up to full capacity, and hundreds (thousands) more patterns per structure drawn in the harness; the correction itself is model checked exhaustively on a small field (RSMC)."),
 "C03": (REPLAY, "Sampled damage beyond capacity, single blocks and several; the expected outcome is that of the specification's bounded-distance decoder, so accidental corrections are predicted as well. More damage is drawn in the harness; whatever the code accepted there, and whatever lies near another codeword, is judged by TLC afterwards (TraceDamage)."),
 "C04": (REPLAY, "Every 15-bit word as first and as second copy for two versions (six in the thorough tier), a stride of them for the others."),
 "C05": (REPLAY, "Streams generated from the grammar (valid, truncated, mutated, random), read by the segment automaton in TLA+, which is itself model checked on short streams (ReaderMC)."),
 "C06": (REPLAY + "; " + TRACE, "All short histories, long random recorded ones; BitReader model checked on all histories of small strings."),
 "C07": (TRACE, "All sequences of outcomes for up to 5 (6) locations and long random ones, with recording components; Pipeline model checked incl. liveness."),
 "C08": (TRACE, "All setter sequences up to length 5 (6) and longer random ones, all three starts; Builder model checked."),
 "C09": (REPLAY, "The cases of C01, C02, C03, C05 through both decoders; exact error counts known from the generated damage."),
 "C10": (REPLAY, "Fourteen families of pictures (all tiny sizes, strips, noise, finder arrangements of every distance, symbols cut, covered and overlaid), locations inside and outside, and matrices of all versions, generated by TLC; the claim is that every call returns. Sampled."),
 "C11": (REPLAY, "Sampled pictures of sixteen kinds and sixteen block settings, decided pixel by pixel with exact integers in TLA+."),
 "C12": (REPLAY, "Placements generated by TLC with exact coordinates: all versions and turns, block-relative positions, all pairs of gray levels, modules of any fraction of a pixel, tilts of all versions, skews, bends, large pictures and modules. Sampled; only single clean codes on a light ground."),
 "C13": (REPLAY, "Placements with exact module positions: all versions upright and at any angle, skews in perspective and along one axis, codes off the picture. Sampled."),
 "C14": (REPLAY, "Rows and columns of two to four codes, with and without one of them damaged beyond repair, each turned, tilted, bent or sized in its own way, in gray or uneven light, and grids of up to twelve. Sampled."),
 "C15": (TRACE, "All ordered pairs of 50 pictures, stage by stage for 20 of the same size, random and parallel histories; recorded results must be explained by one function of call and picture (History), with every call in a process of its own as the start. The monitor is model checked (HistoryMC)."),
 "C16": (TRACE, "50 pictures in 65 (312) representations: thirteen kinds of containers, places in larger pictures, transparency and colours of equal gray value (Containers, model checked); recorded results must be explained by one function of what is shown."),
 "C17": (TRACE, "Several hundred pictures through a build without and one with debug images, with usable, missing, blocked and too deep places for the images, with and without a logger; lockstep comparison of all stages by TLC."),
 "C18": (REPLAY, "Every single pixel of a picture inverted on its own, plus sampled sets of isolated specks, lattices of them all over the picture, and specks aimed at the lines through the finder centres, late in runs or anywhere."),
 "C19": (REPLAY, "Pictures of lone finder patterns: right angles around every threshold (length, angle, size, distance) in all turns and orders, and sets of many patterns; Corners.tla says which triples must and which may be reported, with a margin around each threshold. CornersMC: every symbol of Scene.tla is such a triple."),
 "C20": (REPLAY, "Codes in their quiet zone within frames of rectangles, lines, bar codes, noise and lone finder patterns. Sampled."),
 "C21": (REPLAY, "Codes seen through a film of light, blur and grain with exact arithmetic (Film.tla; the harness's film is compared with TLC's pixel by pixel). Sampled."),
 "C22": (REPLAY, "Sampled programs on three points and three offsets with exact coordinates, every module of matrices of eight (forty) versions, pairs of errors; the algebra is model checked on small values (PlaneMC)."),
 "C23": (REPLAY, "Discs, rectangles, scratches, patches of noise, and bursts along the reading order, in dark, light or gray, on codes in all placements; the specification follows every stained pixel to its module, codeword and block and sizes the stains to the capacity. Sampled."),
}
NOT = {}
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m = {"version": 1,
     "setup_cmd": "bash bin/setup.sh",
     "checks": [{"property": p, "quick_cmd": "python3 bin/check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 bin/check.py " + p,
                 "technique": NOTE[p][0], "level": "model_checking", "level_note": NOTE[p][1]} for p in sorted(NOTE)],
     "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NOT.items())],
     "notes": "Specifications in spec/ (TLA+, TLC), harness crate in harness/. No hooks in /repo are needed."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
