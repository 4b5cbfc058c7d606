#!/usr/bin/env python3
"""Decide one property: bin/check.py <id> [quick|thorough]   (also: setup, replay <file>)

Every check runs TLC on a specification in spec/, and binds the specification to
the code in /repo: behaviours TLC computed are replayed in the library, or
behaviours recorded from the library are handed to TLC to accept or reject.
"""
import json, os, re, resource, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "bin"))
SPEC = os.path.join(ROOT, "spec")
HARNESS = os.path.join(ROOT, "harness")
WORK = os.path.join(ROOT, "work")
FINDINGS = os.path.join(ROOT, "known-findings.txt")


class Stop(Exception):
    """The check cannot give an answer."""


def log(*a):
    print(*a, flush=True)


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.dir = os.path.join(WORK, f"{pid}-{tier}")
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.states = self.transitions = self.traces = 0
        self.samples, self.violations, self.notes = [], [], {}
        self.models = []

    @property
    def quick(self):
        return self.tier == "quick"

    def path(self, name):
        return os.path.join(self.dir, name)

    def size(self, quick, thorough):
        return quick if self.quick else thorough

    # -- the code under test ------------------------------------------------
    def vh(self, mode, timeout=800, plain=False, **opt):
        """Runs the harness; its findings come back as a dict."""
        exe = build(plain=True) if plain else BIN
        out = self.path(opt.pop("report", f"{mode}.json"))
        args = [exe, mode] + [f"--{k}={v}" for k, v in opt.items()] + [f"--out={out}"]
        if os.path.exists(out):
            os.remove(out)
        if self.quick:
            timeout = min(timeout, 330)
        p = run_limited(args, timeout)
        if p.returncode == 0 and os.path.exists(out):
            return json.load(open(out))
        if p.returncode == 2:
            raise Stop(f"harness: {' '.join(args)}: {p.stderr[-2000:]}")
        # the code under test took the process down: once more, one case at a time
        journal = self.path("journal")
        q = run_limited(args, timeout, {"VH_JOURNAL": journal})
        if q.returncode == 0 and os.path.exists(out):
            r = json.load(open(out))
            if r["violations"]:
                return r
            raise Stop(f"harness died ({p.returncode}) and did not the second time: {p.stderr[-1000:]}")
        case = open(journal).read().split() if os.path.exists(journal) else []
        if not case:
            raise Stop(f"harness died ({p.returncode}) before the first case: {p.stderr[-1000:]}")
        return {"violations": [{"case": int(case[0]), "vseed": int(case[1]),
                                "what": f"the process died: exit {q.returncode} {q.stderr[-300:]}"}],
                "counts": {}, "samples": [], "wall_s": 0}

    def gen(self, mode, name, **opt):
        """Inputs for the specification."""
        out = self.path(name)
        p = run_limited([BIN, mode] + [f"--{k}={v}" for k, v in opt.items()] + [f"--out={out}"], 300)
        if p.returncode != 0 or not os.path.exists(out):
            raise Stop(f"harness {mode}: {p.returncode} {p.stderr[-2000:]}")
        return out

    # -- the specification --------------------------------------------------
    def tlc(self, module, cfg=None, env=None, timeout=800, workers=8, extra=()):
        """Runs TLC; True if it found nothing, else the text of its report."""
        meta = self.path("tlc-" + (cfg or module))
        args = ["tlc", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config",
                (cfg or module) + ".cfg", *extra, module]
        e = dict(os.environ)
        e.update(env or {})
        # operators recurse as deep as contours are long
        e["JAVA_TOOL_OPTIONS"] = "-Xss64m"
        try:
            p = subprocess.run(args, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Stop(f"TLC {module}: no answer in {timeout} s")
        shutil.rmtree(meta, ignore_errors=True)
        text = p.stdout
        open(self.path((cfg or module) + ".log"), "w").write(text + p.stderr)
        m = re.findall(r"(\d[\d,]*) states generated.*?(\d[\d,]*) distinct states found", text)
        if m:
            g, d = (int(x.replace(",", "")) for x in m[-1])
            self.states += d
            self.transitions += g
            self.models.append({"module": cfg or module, "states": d, "transitions": g})
        if p.returncode == 0 and "No error has been found" in text:
            return True
        if p.returncode in (10, 11, 12, 13):  # assumption, deadlock, safety, liveness
            return text
        raise Stop(f"TLC {module}: exit {p.returncode}\n{text[-3000:]}\n{p.stderr[-500:]}")

    def model(self, module, cfg=None, **kw):
        """A model whose own invariants have to hold: a failure is a mistake in the specification."""
        r = self.tlc(module, cfg, **kw)
        if r is not True:
            raise Stop(f"the specification {cfg or module} breaks its own invariant:\n{r[-3000:]}")

    # -- results ------------------------------------------------------------
    def take(self, report, traces=None, what=None):
        c = report["counts"]
        self.traces += c.get("runs", 0) if traces is None else traces
        for k, v in c.items():
            key = f"{what}.{k}" if what else k
            self.notes[key] = max(self.notes.get(key, 0), v) if k.endswith("largest_call") else self.notes.get(key, 0) + v
        for s in report["samples"]:
            if len(self.samples) < 6:
                self.samples.append(s)
        for v in report["violations"]:
            if what:
                v = dict(v, part=what)
            self.violations.append(v)

    def finish(self, level="model_checking", assumptions=()):
        known, new = split_known(self.pid, self.violations)
        wall = time.time() - self.t0
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "samples": self.samples or [{"note": "no sample"}], "models": self.models, "counts": self.notes}
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": list(assumptions), "wall_s": round(wall, 2), "violations": len(new)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(ROOT, "evidence", f"{self.pid}.json"), "w"), indent=1)
        for k in sorted(set(known)):
            log(f"KNOWN-FINDING: property={self.pid} {k}")
        log(f"{self.pid} {self.tier}: {self.states} states, {self.traces} behaviours against the code, "
            f"{len(new)} violations, {wall:.1f} s")
        if not new:
            return 0
        new.sort(key=lambda v: len(json.dumps(v)))
        rp = os.path.join(WORK, "replay")
        os.makedirs(rp, exist_ok=True)
        f = os.path.join(rp, f"{self.pid}-{self.tier}-{self.seed}.json")
        json.dump({"property": self.pid, "tier": self.tier, "seed": self.seed, "count": len(new),
                   "violations": new[:20]}, open(f, "w"), indent=1)
        log(json.dumps(new[0])[:1500])
        log(f"VIOLATION property={self.pid} replay={os.path.relpath(f, ROOT)}")
        return 1


def run_limited(args, timeout, env=None):
    def limit():
        lim = 12 << 30
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    e = dict(os.environ)
    e.update(env or {})
    try:
        return subprocess.run(args, capture_output=True, text=True, timeout=timeout, preexec_fn=limit, env=e, errors="replace")
    except subprocess.TimeoutExpired as x:
        return subprocess.CompletedProcess(args, 124, "", f"timeout {timeout} s")


def split_known(pid, violations):
    """A listed finding is one specific case: every field of its key has to agree."""
    keys = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            m = re.match(r"finding: property=(\S+) (\{.*?\}) :: (.*)", line.strip())
            if m and m.group(1) == pid:
                keys.append((json.loads(m.group(2)), m.group(3)))
    known, new = [], []
    for v in violations:
        for k, text in keys:
            if all(v.get(f) == x for f, x in k.items()):
                known.append(text)
                break
        else:
            new.append(v)
    return known, new


def build_env():
    e = dict(os.environ)
    for k in ("RUSTC_WRAPPER", "RUSTC", "RUSTDOC", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0", RUSTC_WRAPPER="",
             CARGO_TARGET_DIR=os.path.join(HARNESS, "target"))
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    return e


BIN = os.path.join(HARNESS, "target", "release", "vh")
PLAIN = os.path.join(HARNESS, "target", "plain", "vh")


def build(plain=False):
    """The harness with the library of /repo's working tree in it; plain: as released, and without threads."""
    env = build_env()
    env["RUSTFLAGS"] = ""
    p = subprocess.run(["cargo", "build", "--offline", "--locked"] + (["--profile=plain", "--no-default-features"] if plain else ["--release"]), cwd=HARNESS, env=env, capture_output=True, text=True)
    if p.returncode != 0:
        raise Stop("build: " + p.stderr[-4000:])
    return PLAIN if plain else BIN


def main():
    import properties
    if sys.argv[1] == "setup":
        build()
        build(plain=True)
        return 0
    if sys.argv[1] == "replay":
        r = json.load(open(sys.argv[2]))
        for v in r["violations"]:
            log(json.dumps(v))
        log(f"run again: VERIF_SEED={r['seed']} bin/check.py {r['property']} {r['tier']}")
        return 0
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = None
    try:
        build()
        c = Check(pid, tier, seed)
        return properties.RUN[pid](c)
    except Stop as x:
        if c and c.violations:
            # what was found before stays found
            log(f"incomplete: {str(x)[:400]}")
            return c.finish()
        log(f"no answer for {pid}: {x}")
        return 2


if __name__ == "__main__":
    sys.modules["check"] = sys.modules["__main__"]
    sys.exit(main())
