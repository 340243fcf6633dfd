"""Shared machinery of the checks: running TLC, building and running the harness,
evidence files and verdicts. Exit codes: 0 held, 1 violation, 2 error of the check."""
import json, os, re, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")
REPO = "/repo"


class ToolError(Exception):
    pass


def env_seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


class Check:
    def __init__(self, prop, level):
        self.prop, self.level = prop, level
        self.seed = env_seed()
        self.tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.work = os.path.join(BUILD, "work", prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.replays = os.path.join(BUILD, "replay")
        os.makedirs(self.replays, exist_ok=True)
        self.states = self.transitions = self.replayed = self.validated = self.distinct = 0
        self.samples, self.violations, self.assumptions = [], [], []
        self.extra, self.runs = {}, []
        self.rule, self.serial = "", 0
        self.lock, self.table_lock = threading.Lock(), threading.Lock()
        self.known = load_known(prop)
        self.known_hit = {}

    def dir(self, name):
        d = os.path.join(self.work, name)
        os.makedirs(d, exist_ok=True)
        return d

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg=None, env=None, workers="8", timeout=800, mem="6g", extra=(), expect_violation=False):
        """Runs TLC; a violated invariant or postcondition of the specification itself is returned, not raised."""
        timeout *= 6 if self.thorough else 1
        cfg = cfg or module + ".cfg"
        with self.lock:
            self.serial += 1
            meta = os.path.join(self.work, "tlc-%d" % self.serial)
            os.makedirs(meta)
        e = dict(os.environ)
        e.update({"VERIF_SEED": str(self.seed), "VERIF_TIER": self.tier})
        e.update(env or {})
        e["JAVA_TOOL_OPTIONS"] = "-Djava.io.tmpdir=%s" % meta
        cmd = ["java", "-Xmx" + mem, "-Xss64m", "-XX:+UseParallelGC", "-cp", TLC_CP, "tlc2.TLC", "-workers", str(workers),
               "-config", cfg, "-metadir", os.path.join(meta, "m"), "-noGenerateSpecTE", *extra, module + ".tla"]
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC %s: no answer within %d s" % (cfg, timeout))
        out = p.stdout.decode("utf8", "replace")
        with open(os.path.join(self.work, "tlc-%s.log" % cfg), "a") as f:
            f.write(out)
        shutil.rmtree(meta, ignore_errors=True)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        r = {"module": module, "config": cfg, "rc": p.returncode, "out": out, "seconds": round(time.time() - t, 1),
             "transitions": int(m[-1][0]) if m else 0, "states": int(m[-1][1]) if m else 0}
        if p.returncode == 0 and "Model checking completed. No error has been found" not in out:
            raise ToolError("TLC %s: unexpected output\n%s" % (cfg, out[-3000:]))
        if p.returncode not in (0, 10, 11, 12, 13) or (p.returncode != 0 and not expect_violation):
            raise ToolError("TLC %s ended with %d\n%s" % (cfg, p.returncode, out[-4000:]))
        with self.lock:
            self.states += r["states"]
            self.transitions += r["transitions"]
            self.runs.append({k: r[k] for k in ("config", "states", "transitions", "seconds")})
        return r

    def tables(self):
        with self.table_lock:
            d = os.path.join(self.work, "tables")
            if not os.path.isdir(d):
                os.makedirs(d)
                self.tlc("Export", env={"EXPORT_DIR": d})
            return d

    # -------------------------------------------------------------- harness
    def build(self, debug_images=False):
        target = os.path.join(BUILD, "target-debug-images" if debug_images else "target")
        e = dict(os.environ)
        e["CARGO_TARGET_DIR"] = target
        e.pop("RUSTFLAGS", None)
        cmd = ["cargo", "build", "--release", "--offline", "--quiet"]
        if debug_images:
            cmd += ["--features", "debug-images"]
        p = subprocess.run(cmd, cwd=os.path.join(VERIF, "harness"), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode != 0:
            raise ToolError("the harness does not build against /repo:\n" + p.stdout.decode("utf8", "replace")[-4000:])
        return os.path.join(target, "release", "harness")

    def harness(self, binary, *args, timeout=700, env=None, result=True):
        """Last argument is the result file."""
        timeout *= 6 if self.thorough else 1
        e = dict(os.environ)
        e["VERIF_SEED"], e["VERIF_TIER"] = str(self.seed), self.tier
        e["TMPDIR"] = self.dir("tmp")
        e.update(env or {})
        try:
            p = subprocess.run([binary, *args], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("harness %s: no answer within %d s" % (args[0], timeout))
        if p.returncode < 0 and -p.returncode in (4, 6, 7, 8, 11):   # the code under test took the process down
            return {"evaluations": 1, "failed": 1, "samples": [], "counters": {}, "trace": [], "failures": [
                {"what": "crash", "detail": "the process died with signal %d: %s" % (-p.returncode, p.stdout.decode("utf8", "replace")[-500:]),
                 "case": {"command": list(args)}}]}
        if p.returncode != 0:
            raise ToolError("harness %s ended with %d\n%s" % (args[0], p.returncode, p.stdout.decode("utf8", "replace")[-3000:]))
        out = args[-1]
        if not result or not os.path.exists(out):
            return None
        with open(out) as f:
            return json.load(f)

    def replay(self, binary, command, cases, name, keep=None, tables=True, extra=(), env=None, timeout=700):
        """Runs a harness command on generated cases, collects counts and failures of the kinds in `keep`."""
        out = os.path.join(self.work, "result-%s.json" % name)
        args = [command] + ([self.tables()] if tables else []) + [cases, *extra, out]
        r = self.harness(binary, *args, env=env, timeout=timeout)
        self.take(r, name, keep)
        return r

    def take(self, r, name, keep=None):
        self.replayed += r["evaluations"]
        self.distinct += r["counters"].get("distinct", 0)
        self.samples += r["samples"][:2]
        for k, v in r["counters"].items():
            self.extra["%s.%s" % (name, k)] = v
        other = 0
        for f in r["failures"]:
            if keep is None or f["what"] in keep or f["what"] in ("crash", "hang"):
                self.violation(f["detail"], {"group": name, **f})
            else:
                other += 1
        if other:
            self.extra["%s.failures_of_other_properties" % name] = other

    # -------------------------------------------------------------- verdict
    def violation(self, what, case):
        key = case.get("key") or (case.get("case") or {}).get("key") if isinstance(case.get("case"), dict) else case.get("key")
        if key and key in self.known:
            self.known_hit[key] = self.known[key]
            return
        self.violations.append((what, case))

    def finish(self):
        for key, text in sorted(self.known_hit.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, text))
        # every replayed case is one behaviour of the specification taken through the code;
        # recorded traces that TLC checked are counted where no case was replayed for them
        n = max(self.replayed, self.validated)
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": n,
               "rule": self.rule, "samples": [trim(s) for s in self.samples[:6]], "tlc_runs": self.runs}
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.work, ignore_errors=True) if not os.environ.get("VERIF_KEEP") else None
        if self.violations:
            for k, (what, case) in enumerate(self.violations[:5]):
                path = os.path.join(self.replays, "%s-%d.json" % (self.prop, k))
                with open(path, "w") as f:
                    json.dump({"property": self.prop, "what": what, "seed": self.seed, "tier": self.tier, "case": case}, f)
                print("# %s" % what.replace("\n", " ")[:400])
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
            if len(self.violations) > 5:
                print("# %d more" % (len(self.violations) - 5))
            return 1
        print("property %s held: %d evaluations, %d states, %.0f s" % (self.prop, n, self.states, time.time() - self.t0))
        return 0


def trim(v, depth=0):
    if isinstance(v, list):
        return [trim(x, depth + 1) for x in v[:24]] + (["... %d in all" % len(v)] if len(v) > 24 else [])
    if isinstance(v, dict):
        return {k: trim(x, depth + 1) for k, x in v.items()}
    return v


def load_known(prop):
    """known-findings.txt: lines  known: property=<id> key=<key> <text>   /  fixed: property=<id> <commit> <text>"""
    r = {}
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                r[m.group(2)] = m.group(3)
    return r


def _tlc_cp():
    jars = ["/opt/veriftools/tla/tla2tools.jar"]
    d = "/opt/veriftools/tla"
    for f in sorted(os.listdir(d)):
        if f.endswith(".jar") and f != "tla2tools.jar":
            jars.append(os.path.join(d, f))
    return ":".join(jars)


TLC_CP = _tlc_cp()


def parallel(*fns):
    """Runs the functions in threads and returns their results; the first exception is raised."""
    res, err = [None] * len(fns), []

    def go(i, f):
        try:
            res[i] = f()
        except BaseException as e:
            err.append(e)

    ts = [threading.Thread(target=go, args=(i, f)) for i, f in enumerate(fns)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if err:
        raise err[0]
    return res


def main(props, assumptions):
    if len(sys.argv) != 2 or sys.argv[1] not in props:
        print("usage: check.py " + "|".join(sorted(props)))
        return 2
    prop = sys.argv[1]
    c = Check(prop, "model_checking")
    c.assumptions = list(assumptions)
    fn = props[prop]
    try:
        fn(c)
        return c.finish()
    except ToolError as e:
        print("ERROR: %s" % e)
        return 2
    except Exception as e:
        import traceback
        traceback.print_exc()
        return 2
