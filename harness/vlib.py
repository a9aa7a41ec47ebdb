"""Common machinery of the checks: running TLC, replaying, evidence."""
import hashlib
import json
import multiprocessing
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO != "/repo":
    sys.path.insert(0, REPO)
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
SPEC = os.path.join(VERIF, "spec")
TLA = "/opt/veriftools/tla"
NPROC = int(os.environ.get("VERIF_PROCS", "8"))


class MachineryError(Exception):
    """The check itself could not do its work (not a violation)."""


def tla(v):
    """Python value -> TLA+ expression text."""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v) if v >= 0 else "(%d)" % v
    if isinstance(v, str):
        return json.dumps(v)
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(tla(x) for x in v)) + "}"
    if isinstance(v, dict):
        return "[" + ", ".join("%s |-> %s" % (k, tla(x)) for k, x in v.items()) + "]"
    raise TypeError(type(v))


class Raw(str):
    """TLA+ text to be used as is."""


class TlcResult:
    def __init__(self):
        self.cases = []
        self.states = 0
        self.distinct = 0
        self.steps = 0
        self.depth = 0
        self.out = ""
        self.violated = None
        self.wall = 0.0


def run_tlc(module, consts=None, init="Init", next_="Next", invariants=(), constraints=(), postcondition=None,
            properties=(), simulate=None, depth=None, seed=1, workers=4, timeout=600, files=None, deadlock=False,
            heap="3g", allow_violation=False, view=None, spec=None):
    """Run TLC on spec/<module>.tla with constant values given as Python values.

    Every string TLC prints that starts with `@` is taken as one JSON case.
    """
    consts = consts or {}
    if simulate:
        workers = min(workers, 4)
        simulate = max(1, simulate // workers)  # TLC counts per worker
    d = tempfile.mkdtemp(prefix="verif-tlc-")
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        for name, text in (files or {}).items():
            with open(os.path.join(d, name), "w") as fh:
                fh.write(text)
        with open(os.path.join(d, "MC.tla"), "w") as fh:
            fh.write("---- MODULE MC ----\nEXTENDS %s\n" % module)
            for k, v in consts.items():
                fh.write("c_%s == %s\n" % (k, v if isinstance(v, Raw) else tla(v)))
            fh.write("====\n")
        with open(os.path.join(d, "MC.cfg"), "w") as fh:
            if spec:
                fh.write("SPECIFICATION %s\n" % spec)
            else:
                fh.write("INIT %s\nNEXT %s\n" % (init, next_))
            for k in consts:
                fh.write("CONSTANT %s <- c_%s\n" % (k, k))
            for i in invariants:
                fh.write("INVARIANT %s\n" % i)
            for i in properties:
                fh.write("PROPERTY %s\n" % i)
            for c in constraints:
                fh.write("CONSTRAINT %s\n" % c)
            if postcondition:
                fh.write("POSTCONDITION %s\n" % postcondition)
            if view:
                fh.write("VIEW %s\n" % view)
            fh.write("CHECK_DEADLOCK %s\n" % ("TRUE" if deadlock else "FALSE"))
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss32m", "-Djava.io.tmpdir=" + d,
               "-cp", TLA + "/tla2tools.jar:" + TLA + "/CommunityModules-deps.jar", "tlc2.TLC",
               "-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE",
               "-config", "MC.cfg"]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate, "-depth", str(depth or 100), "-seed", str(seed)]
        cmd.append("MC.tla")
        r = TlcResult()
        t0 = time.time()
        try:
            p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)
        except subprocess.TimeoutExpired:
            raise MachineryError("TLC timed out on %s after %ss" % (module, timeout))
        r.wall = time.time() - t0
        r.out = p.stdout
        rest, found = [], []
        for line in p.stdout.splitlines():
            if line.startswith('"@'):
                found.append(line)
            else:
                rest.append(line)
        # workers print in any order: give the same cases in the same order every time
        found.sort(key=lambda line: (hashlib.md5(line.encode()).digest(), line))
        r.cases = [json.loads(json.loads(line)[1:]) for line in found]
        text = "\n".join(rest)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", text)
        if m:
            r.states, r.distinct = int(m[-1][0]), int(m[-1][1])
            first = re.findall(r"Finished computing initial states: (\d+)", text)
            r.steps = r.states - int(first[-1]) if first else r.states
        m = re.findall(r"The number of states generated: (\d+)", text)
        if m:
            # a simulation does not know which states are the same
            r.states = r.distinct = int(m[-1])
            first = re.findall(r"(\d+) traces generated", text)
            r.steps = r.states - int(first[-1]) if first else r.states
        m = re.findall(r"depth of the complete state graph search is (\d+)", text)
        if m:
            r.depth = int(m[-1])
        r.text = text
        m = re.search(r"Invariant (\S+) is violated", text)
        if m:
            r.violated = m.group(1)
        elif re.search(r"(Temporal|Action) propert", text) and "violated" in text:
            r.violated = "property"
        elif re.search(r"[Pp]ostcondition.*(violated|false)", text):
            r.violated = "postcondition"
        ok = p.returncode == 0 and "Error:" not in text
        if not ok and not (allow_violation and r.violated):
            raise MachineryError("TLC failed on %s (exit %s):\n%s" % (module, p.returncode, text[-6000:]))
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)


class Timeout(Exception):
    pass


def _alarm(signum, frame):
    raise Timeout()


def guarded(f, seconds=120):
    """Run f under an alarm; returns (value, None) or (None, description of the exception)."""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        return f(), None
    except Timeout:
        return None, "Timeout"
    except MachineryError:
        raise
    except Exception as e:  # the code under test failed
        tb = traceback.extract_tb(e.__traceback__)
        where = ["%s:%d" % (os.path.basename(t.filename), t.lineno) for t in tb[-3:]]
        return None, "%s: %s @%s" % (type(e).__name__, str(e)[:300], ",".join(where))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


_FN = None


def _call(item):
    i, case = item
    try:
        return i, _FN(case), None
    except Exception:
        return i, None, traceback.format_exc()


def pmap(fn, cases, procs=None, chunk=None):
    """Map fn over cases in forked processes.  An exception out of fn is a machinery error."""
    global _FN
    cases = list(cases)
    procs = min(procs or NPROC, max(1, len(cases)))
    res = [None] * len(cases)
    if not cases:
        return res
    _FN = fn
    if procs == 1:
        it = map(_call, enumerate(cases))
        for i, r, err in it:
            if err:
                raise MachineryError(err)
            res[i] = r
        return res
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(procs) as pool:
        for i, r, err in pool.imap_unordered(_call, list(enumerate(cases)), chunk or max(1, len(cases) // (procs * 8))):
            if err:
                pool.terminate()
                raise MachineryError(err)
            res[i] = r
    return res


def fingerprint(case):
    return json.dumps(case, sort_keys=True, default=str)


class Ctx:
    def __init__(self, prop, tier, seed, level="model_checking"):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.rng = random.Random(seed * 1000003 + sum(map(ord, prop)))
        self.t0 = time.time()
        self.states = self.transitions = self.validated = 0
        self.cov = {}
        self.samples = []
        self.assumptions = []
        self.violations = []
        self.known = []
        self.known_rules = []
        self.exhaustive = None
        self.runs = []

    @property
    def quick(self):
        return self.tier == "quick"

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def tlc(self, module, label=None, **kw):
        r = run_tlc(module, seed=self.seed, **kw) if "seed" not in kw else run_tlc(module, **kw)
        self.states += r.distinct
        self.transitions += max(0, r.steps)
        uniq = len({fingerprint(c) for c in r.cases})
        run = {"spec": module, "run": label or module, "mode": "simulate" if kw.get("simulate") else "exhaustive"}
        run.update({"states": r.states} if kw.get("simulate") else {"distinct_states": r.distinct, "generated": r.states})
        self.runs.append(dict(run, steps=r.steps, cases=uniq, wall_s=round(r.wall, 1)))
        print("tlc %s %s: %d states, %d cases, %.1fs" % (module, label or "", r.distinct, uniq, r.wall))
        return r

    def count(self, name, n=1):
        self.cov[name] = self.cov.get(name, 0) + n

    def sample(self, case, cap=4):
        if len(self.samples) < cap:
            self.samples.append(case)

    def replay(self, fn, cases, label="replayed", dedup=True, procs=None):
        """fn(case) -> list of mismatches (dicts) or {"skip": reason} ; counts validated behaviours."""
        if dedup:
            seen, uniq = set(), []
            for c in cases:
                k = fingerprint(c)
                if k not in seen:
                    seen.add(k)
                    uniq.append(c)
            cases = uniq
        t = time.time()
        res = pmap(fn, cases, procs=procs)
        n = 0
        for c, r in zip(cases, res):
            if isinstance(r, dict) and "skip" in r:
                self.count("skipped_" + r["skip"])
                continue
            n += 1
            for m in r or ():
                self.violation(m, c)
        self.validated += n
        self.count(label, n)
        if cases:
            self.sample(cases[len(cases) // 2])
        print("%s: %d behaviours, %.1fs" % (label, n, time.time() - t))
        return res

    def violation(self, mismatch, case=None):
        for rule, text in self.known_rules:
            if rule(mismatch, case):
                if text not in self.known:
                    self.known.append(text)
                return
        self.violations.append({"mismatch": mismatch, "case": case})

    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        cov = dict(self.cov)
        if self.level == "model_checking":
            cov.update(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.validated)
        cov["samples"] = json.loads(json.dumps(self.samples, default=str))
        cov["spec_runs"] = self.runs
        if self.exhaustive is not None:
            cov["exhaustive"] = self.exhaustive
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations),
              "assumptions": self.assumptions}
        path = os.path.join(EVID, self.prop + ".json")
        with open(path, "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        if not self.violations:
            print("%s held: %d states, %d behaviours checked against the code, %.1fs"
                  % (self.prop, self.states, self.validated, time.time() - self.t0))
            return 0
        rdir = os.path.join(EVID, "replay")
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, "%s.json" % self.prop)
        with open(rp, "w") as f:
            json.dump({"property": self.prop, "seed": self.seed, "tier": self.tier, "violations": self.violations[:20],
                       "total": len(self.violations)}, f, indent=1, default=str)
        for v in self.violations[:5]:
            print("  mismatch:", json.dumps(v["mismatch"], default=str)[:600])
            print("  in case:", json.dumps(v["case"], default=str)[:600])
        print("VIOLATION property=%s replay=%s" % (self.prop, rp))
        return 1
