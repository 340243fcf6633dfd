#!/usr/bin/env python3
"""bin/check.py <property>: decides one property on /repo's working tree. Quick or thorough by VERIF_TIER."""
import json, os, re, sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import ToolError, main, parallel  # noqa: E402

COMMON = ["the standard's tables are stated in QRStd.tla (ISO/IEC 18004); its own invariants are checked by TLC (StdMC)",
          "what the compiled crate does is observed through its public API only"]
TEXT = ("panic", "accepted", "text", "refused")
INFO = ("info-text", "info-outcome", "info-error", "info-panic", "info-fields")


def gen(c, module, name=None, cfg=None, timeout=800, **env):
    """Runs a generator module; returns the directory with its cases."""
    name = name or module
    d = c.dir(name)
    c.tlc(module, cfg=cfg, env=dict(env, OUT_DIR=d), timeout=timeout)
    return d


def texts(c):
    return gen(c, "GenTexts", "texts")


def trace_check(c, module, trace, group):
    """Checks recorded traces against a trace specification; rejected ones are violations."""
    n = sum(1 for _ in open(trace))
    r = c.tlc(module, env={"TRACE": trace}, expect_violation=True)
    c.validated += n
    if r["rc"] != 0:
        hits = re.findall(r'<<\s*"REJECTED",\s*(\d+),\s*(\d+)', r["out"])
        if not hits:
            raise ToolError("%s ended with %d\n%s" % (module, r["rc"], r["out"][-3000:]))
        lines = open(trace).read().splitlines()
        for t, step in hits[:5]:
            tr = json.loads(lines[int(t) - 1])
            c.violation("%s: recorded behaviour is none of the specification's, at event %s: %s"
                        % (group, step, json.dumps(tr)[:300]), {"group": group, "trace": tr, "event": int(step)})
    c.extra[group + ".traces_checked_by_TLC"] = n


def by_picture(trace):
    """Sorts the events of a history by picture (see TraceHistory.tla)."""
    groups = {}
    for line in open(trace):
        for e in json.loads(line)["ev"]:
            groups.setdefault(e[1], []).append(e)
    with open(trace + ".sorted", "w") as f:
        for k, ev in groups.items():
            f.write(json.dumps({"shown": k, "ev": ev}) + "\n")
    return trace + ".sorted", sum(len(g) for g in groups.values())


def history_check(c, trace, group):
    path, n = by_picture(trace)
    r = c.tlc("TraceHistory", env={"TRACE": path}, expect_violation=True, extra=("-continue",))
    c.validated += n
    c.extra[group + ".recorded_calls_checked_by_TLC"] = n
    lines = open(path).read().splitlines()
    hits = sorted({(int(a), int(b)) for a, b in re.findall(r'<<\s*"REJECTED",\s*(\d+),\s*(\d+)', r["out"])})
    if r["rc"] != 0 and not hits:
        raise ToolError("TraceHistory ended with %d\n%s" % (r["rc"], r["out"][-3000:]))
    if r["rc"] == 0 and r["states"] != n + len(lines):
        raise ToolError("TraceHistory saw %d states for %d events of %d pictures" % (r["states"], n, len(lines)))
    for t, k in hits[:20]:
        ev = json.loads(lines[t - 1])["ev"]
        e = ev[k - 1]
        first = next(x for x in ev if x[0] == e[0])
        c.violation("%s: %s of picture %s gives %s (%s) but %s (%s)" % (group, e[0], e[1], e[2], e[3], first[2], first[3]),
                    {"group": group, "events": [first, e]})


# ------------------------------------------------------------------ symbols
def selfcheck(c, b):
    d = gen(c, "GenMatrix")
    c.harness(b, "selfcheck", c.tables(), d, os.path.join(c.work, "none"))


def clean(c, keep):
    d = gen(c, "GenClean")
    c.replay(c.bin, "symbols", d, "clean", keep)


def damage(c, what, keep):
    d = gen(c, "GenDamage", "damage-" + what, WHAT=what)
    c.replay(c.bin, "symbols", d, what, keep)


def damage_sweep(c, mode, count, keep=None, clean_dir=None):
    """Plans drawn in the harness on the symbols of GenClean; what TLC has to judge afterwards comes back as a trace."""
    d = clean_dir or gen(c, "GenClean", "clean-" + mode)
    tr, out = os.path.join(c.work, "damage-%s.json" % mode), os.path.join(c.work, "result-damage-%s.json" % mode)
    c.take(c.harness(c.bin, "damage", c.tables(), d, mode, str(count), tr, out, timeout=850), "sweep-" + mode, keep)
    cases = json.load(open(tr))
    c.extra["sweep-%s.judged_by_TLC" % mode] = len(cases)
    if not cases:
        return
    r = c.tlc("TraceDamage", env={"TRACE": tr}, expect_violation=True, extra=("-continue",))
    hits = sorted({int(a) for a in re.findall(r'<<\s*"REJECTED",\s*(\d+)', r["out"])})
    if r["rc"] != 0 and not hits:
        raise ToolError("TraceDamage ended with %d\n%s" % (r["rc"], r["out"][-3000:]))
    if r["states"] < 2 * len(cases) and r["rc"] == 0:
        raise ToolError("TraceDamage saw %d states for %d cases" % (r["states"], len(cases)))
    for k in hits[:5]:
        e = cases[k - 1]
        c.violation("%s: version %d level %d with more errors in a block than it can carry: %s (information: %s), the specification disagrees"
                    % (mode, e["v"], e["l"], "text %r" % bytes(e["got"])[:40] if e["plain"] else "error",
                       "%d errors" % e["errors_info"] if e["info"] else "error"), {"group": "sweep-" + mode, "case": e})


def streams(c, keep):
    d = gen(c, "GenStreams")
    c.replay(c.bin, "symbols", d, "streams", keep)


def c01(c):
    c.rule = ("a case is a sequence of segments for a version and level (GenClean), drawn with all eight masks and decoded by both decoders; "
              "distinct cases have different contents")
    c.bin = c.build()
    parallel(lambda: c.tlc("StdMC", workers="2"), lambda: selfcheck(c, c.bin), lambda: clean(c, TEXT))


def c02(c):
    c.rule = "a case is a symbol with a plan of codeword errors that stays within the capacity of every block; plans are pairwise distinct"
    c.bin = c.build()
    parallel(lambda: c.tlc("RSMC", workers="3"), lambda: damage(c, "within", TEXT),
             lambda: damage_sweep(c, "within", 4000 if c.thorough else 200, TEXT))


def c03(c):
    c.rule = "a case is a symbol with codeword errors beyond the capacity of a block, with the outcome the specification's decoder (search for a codeword within capacity) gives"
    c.bin = c.build()
    def sweeps():
        d = gen(c, "GenClean", "clean-over")
        damage_sweep(c, "over", 10000 if c.thorough else 500, TEXT, d)
        damage_sweep(c, "near", 12 if c.thorough else 1, TEXT, d)

    parallel(lambda: c.tlc("RSMC", workers="3"), lambda: damage(c, "over", TEXT), sweeps)


def c04(c):
    c.rule = "a case is a pair of format words; each word of 15 bits is drawn as first and as second copy"
    c.bin = c.build()
    f, t = parallel(lambda: gen(c, "GenFormat"), lambda: texts(c))
    full, step = ("1,2,6,7,21,40", "8") if c.thorough else ("2,7", "64")
    out = os.path.join(c.work, "format.json")
    c.take(c.harness(c.bin, "format", c.tables(), f, t, full, step, out), "format")


def c05(c):
    c.rule = "a case is a stream of data codewords with the reading ReaderMC's automaton gives it; distinct streams"
    c.bin = c.build()
    parallel(lambda: c.tlc("ReaderMC", workers="4"), lambda: streams(c, TEXT))


def c06(c):
    c.rule = "a history of requests on a byte string; generated histories are pairwise distinct"
    b = c.build()

    def record():
        n, ops = ("3000", "60") if c.thorough else ("400", "40")
        t = os.path.join(c.work, "bits.ndjson")
        c.harness(b, "bits-trace", n, ops, t, result=False)
        trace_check(c, "TraceBits", t, "bits")

    parallel(lambda: c.tlc("BitReaderMC", workers="4"), lambda: c.replay(b, "bits", gen(c, "GenBits"), "bits", tables=False), record)


def c07(c):
    c.rule = "a case fixes what happens to each detected location; the recorded call must be a behaviour of Pipeline.tla"
    b = c.build()
    d, x, _ = parallel(lambda: gen(c, "GenPipeline"), lambda: texts(c), lambda: c.tlc("PipelineMC", workers="4"))
    t, out = os.path.join(c.work, "pipeline.ndjson"), os.path.join(c.work, "pipeline.json")
    c.take(c.harness(b, "pipeline", c.tables(), x, d, t, out), "pipeline")
    trace_check(c, "TracePipeline", t, "pipeline")


def c08(c):
    c.rule = "a case is a sequence of setter calls followed by building and, where that succeeds, a decode call that shows which components work"
    b = c.build()
    d, t, _ = parallel(lambda: gen(c, "GenBuilder"), lambda: texts(c), lambda: c.tlc("BuilderMC", workers="2"))
    tr, out = os.path.join(c.work, "builder.ndjson"), os.path.join(c.work, "builder.json")
    c.take(c.harness(b, "builder", c.tables(), d, t, tr, out), "builder")
    trace_check(c, "TraceBuilder", tr, "builder")


def c09(c):
    c.rule = "the cases of C01, C02, C03 and C05, decoded by both decoders and compared with each other and with the expected information"
    c.bin = c.build()
    parallel(lambda: clean(c, INFO), lambda: damage(c, "within", INFO), lambda: damage(c, "over", INFO), lambda: streams(c, INFO),
             lambda: damage_sweep(c, "within", 1000 if c.thorough else 40, INFO))


# ----------------------------------------------------------------- pictures
def scenes(c, families, command="scenes", keep=None):
    c.bin = c.build()
    got = parallel(lambda: texts(c), lambda: c.tables(),
                   *[(lambda f: lambda: gen(c, "GenScenes", "s-" + f, FAMILY=f))(f) for f in families])
    for f, d in zip(families, got[2:]):
        out = os.path.join(c.work, "result-%s.json" % f)
        c.take(c.harness(c.bin, command, c.tables(), got[0], d, out), f, keep)
    return got[0]


def c12(c):
    c.rule = "a case is a placement of a symbol in a picture (GenScenes); distinct placements or contents"
    t = scenes(c, ["sizes", "positions", "gray", "fractional", "tilted", "steep", "skewed", "bent", "far", "fractions", "grays", "big", "tilts", "steeps"], keep=("panic", "missing", "invented", "duplicate", "location"))
    d = gen(c, "GenScenes", "drawn", FAMILY="drawn")
    c.harness(c.bin, "scene-selfcheck", c.tables(), t, d, os.path.join(c.work, "none"))


def c13(c):
    c.rule = "a case is a placement of a symbol in a black and white picture, extracted at its true location"
    scenes(c, ["xupright", "xtilted", "xturned", "xskewed", "xwide", "xbent", "xdecoy", "xoff"], "extract")


def c14(c):
    c.rule = "a case is a picture of two to four codes, clean or one of them damaged, each lying in its own way, or of four to twelve in a grid"
    scenes(c, ["several", "damaged", "crowd", "mixed"], keep=("panic", "missing", "invented", "duplicate"))


def c18(c):
    c.rule = ("a case is a picture of a code with isolated inverted pixels (at random, one per cell of a lattice, or late in the runs of "
              "the finder patterns); the sweep inverts every single pixel of a picture on its own")
    scenes(c, ["specks", "peppered", "peppers", "aimed", "apart", "sweep"], keep=("panic", "missing", "invented", "duplicate"))


def c19(c):
    c.rule = "a case is a picture of lone finder patterns with the triples of them that have to be, or may be, reported as codes (Corners.tla)"
    b = c.build()
    t, tables, d, _ = parallel(lambda: texts(c), lambda: c.tables(), lambda: gen(c, "GenCorners"), lambda: c.tlc("CornersMC", workers="2"))
    out = os.path.join(c.work, "corners.json")
    c.take(c.harness(b, "corners", tables, t, d, out), "corners")


def c20(c):
    c.rule = "a case is a picture of a code in its quiet zone with a frame of other things around it"
    scenes(c, ["clutter"], keep=("panic", "missing", "invented", "duplicate", "location"))


def c21(c):
    c.rule = "a case is a picture of a code seen through a film (Film.tla): uneven light, blur, grain, or all of them"
    t = scenes(c, ["filmed", "films"], keep=("panic", "missing", "invented", "duplicate", "location"))
    d = gen(c, "GenScenes", "seen", FAMILY="seen")
    c.harness(c.bin, "scene-selfcheck", c.tables(), t, d, os.path.join(c.work, "none"))


def c11(c):
    c.rule = "a case is a gray picture with a block size and mean size; non-trivial: the prepared picture has both colours"
    b = c.build()
    c.replay(b, "binarize", gen(c, "GenBinarize"), "binarize", tables=False)


PICTURES = ["tiny", "sliding", "strip", "bands", "scatter", "corner", "lattice", "parts", "noisy", "big", "located", "atcorner", "matrix", "cutoff"]


def c10(c):
    c.rule = "a case is a picture, a picture with a location to extract at, or a module matrix; distinct ones"
    b = c.build()
    jobs = [("GenPictures", f) for f in PICTURES] + [("GenScenes", "cut")]
    t, tables, *dirs = parallel(lambda: texts(c), lambda: c.tables(),
                                *[(lambda m, f: lambda: gen(c, m, "p-" + f, FAMILY=f))(m, f) for m, f in jobs])
    for (_, f), d in zip(jobs, dirs):
        out = os.path.join(c.work, "result-%s.json" % f)
        c.take(c.harness(b, "robust", tables, t, d, out, timeout=850), f, ("panic", "shape"))
        if f == "located" and not 0.1 < c.extra.get("located.extractions_done", 0) / max(1, c.extra.get("located.distinct", 1)):
            c.extra["note"] = "fewer than a tenth of the locations could be extracted"
    c.bin = b
    parallel(lambda: damage(c, "over", ("panic", "info-panic")), lambda: streams(c, ("panic", "info-panic")))


def pool(c):
    """The pictures of Pool.tla: (all of them, those with few locations, the histories over them)."""
    d = gen(c, "GenHistory", "history")
    out = []
    for name in ("pool", "light", "schedules"):
        os.makedirs(os.path.join(d, name))
        for f in [f for f in os.listdir(d) if f.startswith(name) and f.endswith(".json")]:
            os.rename(os.path.join(d, f), os.path.join(d, name, f))
        out.append(os.path.join(d, name))
    return out


def c15(c):
    c.rule = ("a case is a history of calls on two sets of components (or eight, in threads of their own); every call is compared with the same "
              "call in a process that does nothing else and with all other calls for the picture; distinct histories")
    b = c.build()
    t, tables, p, _ = parallel(lambda: texts(c), lambda: c.tables(), lambda: pool(c), lambda: c.tlc("HistoryMC", workers="2"))
    tr, out = os.path.join(c.work, "history.ndjson"), os.path.join(c.work, "history.json")
    c.take(c.harness(b, "history", tables, t, p[0], p[2], tr, out, timeout=850), "history")
    history_check(c, tr, "history")


def c16(c):
    c.rule = "a case is a picture in a representation (container, place in a larger picture, colours, transparency); distinct pairs"
    b = c.build()
    t, tables, p, d, *_ = parallel(lambda: texts(c), lambda: c.tables(), lambda: pool(c), lambda: gen(c, "GenContainers"),
                                   lambda: c.tlc("ContainersMC", workers="2"), lambda: c.tlc("HistoryMC", workers="1"))
    tr, out = os.path.join(c.work, "containers.ndjson"), os.path.join(c.work, "containers.json")
    c.take(c.harness(b, "containers", tables, t, p[0], d, tr, out, timeout=850), "containers")
    history_check(c, tr, "containers")


def c17(c):
    c.rule = ("a case is a picture or a location to extract at; all stages are run by a build without and by one with debug images, "
              "the latter with places for the images that are usable, missing, blocked or too deep")
    plain, debug = c.build(), c.build(debug_images=True)
    pics = ["tiny", "cutoff", "scatter", "parts", "corner", "noisy", "located", "atcorner", "sliding"]
    scn = ["positions", "tilted", "fractional", "several", "damaged", "cut", "xskewed"]
    t, tables, p, _, *dirs = parallel(
        lambda: texts(c), lambda: c.tables(), lambda: pool(c), lambda: c.tlc("HistoryMC", workers="1"),
        *[(lambda f: lambda: gen(c, "GenPictures", "p-" + f, FAMILY=f))(f) for f in pics],
        *[(lambda f: lambda: gen(c, "GenScenes", "s-" + f, FAMILY=f))(f) for f in scn])
    by = dict(zip(pics + scn, dirs))

    def some(steps):
        return ",".join("%s:%d" % (by[f], n) for f, n in steps.items())

    wide = ",".join([p[0] + ":1", some({"tiny": 3, "cutoff": 6, "scatter": 8, "parts": 8, "corner": 8, "noisy": 12, "located": 16, "atcorner": 10, "sliding": 10,
                                        "positions": 8, "tilted": 8, "fractional": 8, "several": 12, "damaged": 12, "cut": 8, "xskewed": 12})])
    few = ",".join([p[1] + ":1", some({"tiny": 12, "cutoff": 30, "sliding": 12, "positions": 24, "tilted": 15, "fractional": 15, "cut": 15, "xskewed": 24})])
    tmp = c.dir("debug")
    image_dir = "bardecoder-debug-images"

    def place(name, *folders, files=()):
        d = os.path.join(tmp, name)
        os.makedirs(d)
        for f in folders:
            os.makedirs(os.path.join(d, f))
        for f in files:
            os.makedirs(os.path.dirname(os.path.join(d, f)), exist_ok=True)
            open(os.path.join(d, f), "w").close()
        return d

    def deep(d, length):
        """the same folder by a path of that length"""
        pad = length - len(d)
        return d + "/" * (pad % 2) + "/." * (pad // 2)

    sub = [image_dir + "/" + n for n in ("candidates.png", "alignment.png")]
    limit = 4095 - len("/" + image_dir)
    runs = [  # name, binary, pictures, environment
        ("plain", plain, wide, {}),
        ("plain with a logger", plain, wide, {"HARNESS_LOG": "1"}),
        ("debug images, nowhere to write", debug, wide, {"TMPDIR": "/dev/null/none"}),
        ("debug images and a logger, folder is a file", debug, wide, {"TMPDIR": place("file", files=[image_dir]), "HARNESS_LOG": "1"}),
        ("debug images, file names taken by folders", debug, wide, {"TMPDIR": place("taken", *sub, files=[image_dir + "/alignment", image_dir + "/extract"])}),
        ("debug images, paths too long for the files", debug, few, {"TMPDIR": deep(place("deep1"), limit - 5)}),
        ("debug images, paths too long for files in folders", debug, few, {"TMPDIR": deep(place("deep2"), limit - 15)}),
        ("debug images written", debug, few, {"TMPDIR": place("writable")})]
    merged = os.path.join(c.work, "twins.ndjson")
    with open(merged, "w") as m:
        for k, (name, binary, input, env) in enumerate(runs):
            tr, out = os.path.join(c.work, "twin-%d.ndjson" % k), os.path.join(c.work, "twin-%d.json" % k)
            r = c.harness(binary, "stages", tables, t, input, name, tr, out, env=env, timeout=850)
            c.take(r, name)
            if os.path.exists(tr):
                with open(tr) as f:
                    m.write(f.read())
    written = sum(len(f) for _, _, f in os.walk(os.path.join(tmp, "writable")))
    c.extra["debug_images_written"] = written
    history_check(c, merged, "twins")


def c23(c):
    c.rule = "a case is a picture of a code with one to five stains that leave every block within its capacity"
    scenes(c, ["soiled", "burst"], keep=("panic", "missing", "invented", "duplicate", "location"))


def c22(c):
    c.rule = "a case is a program of up to 40 operations on three points and three offsets, a module matrix, or a pair of errors"
    b = c.build()
    parallel(lambda: c.tlc("PlaneMC", workers="4"), lambda: c.replay(b, "plane", gen(c, "GenPlane"), "plane", tables=False))


PROPS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10,
         "C11": c11, "C12": c12, "C13": c13, "C14": c14, "C15": c15, "C16": c16, "C17": c17, "C18": c18, "C19": c19, "C20": c20, "C21": c21, "C22": c22, "C23": c23}

if __name__ == "__main__":
    sys.exit(main(PROPS, COMMON))
