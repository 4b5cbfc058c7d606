"""What each check runs."""
import json, os
from check import Stop, log

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RUN = {}


def prop(pid):
    def reg(f):
        RUN[pid] = f
        return f
    return reg


def expected(c, n, fams="", shapes=True, salt=0, frame=False):
    """Scenes, and what the specification computes for them."""
    seed = c.seed * 1000 + salt
    opt = {"fams": fams} if fams else {}
    if frame:
        opt["frame"] = "1"
    scenes = c.gen("gen-boolean", f"scenes{salt}.ndjson", seed=seed, n=n, **opt)
    out = c.path(f"expected{salt}")
    os.makedirs(out, exist_ok=True)
    c.model("OverlayGen", env={"SCENES": scenes, "OUT": out, "SHAPES": "1" if shapes else "0"})
    return scenes, out


def boolean(c, what, quick, thorough, salt, rounds=6, fams="", plain=0):
    """Replays specified overlays in the library (plain: so often too in the library as released)."""
    n, v = c.size(quick, thorough)
    for i in range(1 if c.quick else rounds):
        scenes, out = expected(c, n, fams, what != "region", salt + 100 * i)
        c.take(c.vh("replay-boolean", report=f"{what}{i}.json", what=what, seed=c.seed + i, scenes=scenes, expected=out, variants=v))
        if what in ("simplify", "vectors"):
            # many scenes in one call: up to half a million points
            for n, calls in ((2000, c.size(400, 3000)), (36000, c.size(30, 200))):
                c.take(c.vh("replay-crowd-overlays", report=f"crowd{i}-{n}.json", what=what, seed=c.seed + i, scenes=scenes, expected=out, calls=calls, largest=n), what="crowd")
        if plain:
            c.take(c.vh("replay-boolean", plain=True, report=f"plain{i}.json", what=what, seed=c.seed + i + 50, scenes=scenes, expected=out, variants=plain), what="plain")
        if c.violations:
            break
    return c.finish()


def machine(c, name, n, kinds, rules, order, g=2):
    """The small-step machine, in every order of steps: its own invariants."""
    scenes = c.gen("gen-small", f"{name}.ndjson", seed=c.seed * 1000 + 7, n=n, kinds=kinds, probes=6, g=g)
    c.model("OverlayMachine", env={"SCENES": scenes, "RULES": rules, "ORDER": order}, timeout=3600)


def smallest(c, what, kinds, variants):
    """Every pair of triangles (and more) on a lattice of nine points, replayed."""
    scenes = c.gen("gen-small", "small.ndjson", kinds=kinds)
    out = c.path("small")
    os.makedirs(out, exist_ok=True)
    c.model("OverlayGen", env={"SCENES": scenes, "OUT": out, "SHAPES": "0" if what == "region" else "1"})
    c.take(c.vh("replay-boolean", report="small.json", what=what, seed=c.seed, scenes=scenes, expected=out, variants=variants), what="small")


@prop("C01")
def c01(c):
    if c.quick:
        machine(c, "machine", 250, "0,1,2,3", "few", "any")
    else:
        machine(c, "machine", 0, "0,1,2", "few", "any")
        machine(c, "machine4", 4000, "0,1", "few", "any", g=3)
    smallest(c, "region", "0,1,2" if c.quick else "0,1,2,3", c.size(9, 25))
    return boolean(c, "region", (5000, 12), (25000, 60), 1)


@prop("C02")
def c02(c):
    machine(c, "machine", c.size(150, 6000), "0,1,2,3", "all", "one")
    smallest(c, "form", "0,1,2" if c.quick else "0,1,2,3", c.size(6, 20))
    return boolean(c, "form", (5000, 8), (20000, 40), 2, plain=c.size(2, 10))


@prop("C04")
def c04(c):
    n, v = c.size((3000, 10), (16000, 40))
    for i in range(1 if c.quick else 4):
        scenes, out = expected(c, n, salt=4 + 100 * i)
        c.take(c.vh("replay-boolean", report=f"solver{i}.json", what="solver", seed=c.seed + i, scenes=scenes, expected=out, variants=v), what="single")
        c.take(c.vh("replay-tiles", report=f"tiles{i}.json", seed=c.seed + i, scenes=scenes, expected=out,
                    calls=c.size(1200, 8000), largest=2800), what="tiled")
        c.take(c.vh("replay-tiles", report=f"huge{i}.json", seed=c.seed + i + 70, scenes=scenes, expected=out,
                    calls=c.size(40, 300), largest=36000), what="tiled")
        c.take(c.vh("replay-boolean", plain=True, report=f"plain{i}.json", what="solver", seed=c.seed + i + 50, scenes=scenes, expected=out, variants=c.size(3, 10)), what="plain")
        c.take(c.vh("replay-tiles", plain=True, report=f"plaintiles{i}.json", seed=c.seed + i + 50, scenes=scenes, expected=out,
                    calls=c.size(300, 2000), largest=2800), what="plaintiled")
        scenes, out = expected(c, n // 2, salt=54 + 100 * i, frame=True)
        c.take(c.vh("replay-tiles", report=f"framed{i}.json", seed=c.seed + i, scenes=scenes, expected=out, frame=1,
                    calls=c.size(1200, 8000), largest=2800), what="framed")
        c.take(c.vh("replay-tiles", report=f"hugeframed{i}.json", seed=c.seed + i + 70, scenes=scenes, expected=out, frame=1,
                    calls=c.size(40, 300), largest=36000), what="framed")
        if c.violations:
            break
    return c.finish()


@prop("C05")
def c05(c):
    return boolean(c, "input", (6000, 12), (20000, 40), 5)


@prop("C06")
def c06(c):
    return boolean(c, "options", (6000, 12), (20000, 40), 6)


@prop("C07")
def c07(c):
    return boolean(c, "simplify", (6000, 40), (20000, 120), 7)


@prop("C08")
def c08(c):
    return boolean(c, "vectors", (6000, 6), (20000, 20), 8)


def strings(c, what, quick, thorough, salt):
    n, v = c.size(quick, thorough)
    for i in range(1 if c.quick else 4):
        scenes = c.gen("gen-strings", f"scenes{i}.ndjson", seed=c.seed * 1000 + salt + i, n=n)
        out = c.path(f"expected{i}")
        os.makedirs(out, exist_ok=True)
        c.model("StringsGen", env={"SCENES": scenes, "OUT": out})
        c.take(c.vh("replay-strings", report=f"{what}{i}.json", what=what, seed=c.seed + i, scenes=scenes, expected=out, variants=v))
        for size, calls in ((2000, c.size(400, 3000)), (40000, c.size(30, 200))):
            c.take(c.vh("replay-crowd-strings", report=f"crowd{i}-{size}.json", what=what, seed=c.seed + i, scenes=scenes, expected=out, calls=calls, largest=size), what="crowd")
        if c.violations:
            break
    return c.finish()


@prop("C09")
def c09(c):
    return strings(c, "slice", (6000, 30), (25000, 80), 900)


@prop("C10")
def c10(c):
    return strings(c, "clip", (6000, 20), (25000, 60), 1000)


@prop("C11")
def c11(c):
    n, v = c.size((2500, 6), (12000, 40))
    for i in range(1 if c.quick else 4):
        scenes, out = expected(c, n, salt=11 + 100 * i)
        c.take(c.vh("replay-float", report=f"float{i}.json", seed=c.seed + i, scenes=scenes, expected=out, variants=v), what="overlay")
        scenes = c.gen("gen-strings", f"lines{i}.ndjson", seed=c.seed * 1000 + 1100 + i, n=n)
        out = c.path(f"lines{i}")
        os.makedirs(out, exist_ok=True)
        c.model("StringsGen", env={"SCENES": scenes, "OUT": out})
        c.take(c.vh("replay-float-strings", report=f"strings{i}.json", seed=c.seed + i, scenes=scenes, expected=out, variants=v), what="lines")
        if c.violations:
            break
    return c.finish()


def probed(c, n, i):
    """Contours with crossings between the lattice points, and what holds at probe points."""
    scenes = c.gen("gen-rough", f"rough{i}.ndjson", seed=c.seed * 1000 + 300 + i, n=n)
    out = c.path(f"probes{i}")
    os.makedirs(out, exist_ok=True)
    c.model("RegionGen", env={"SCENES": scenes, "OUT": out})
    return scenes, out


def judge(c, module, traces, what, salt=0):
    """The specification accepts recorded traces or says what is wrong with them."""
    out = c.path(f"judged-{what}{salt}")
    os.makedirs(out, exist_ok=True)
    c.model(module, env={"TRACES": traces, "OUT": out})
    verdicts = {}
    for f in os.listdir(out):
        for line in open(os.path.join(out, f)):
            v = json.loads(line)
            verdicts[v["id"]] = v["wrong"]
    rows = [json.loads(line) for line in open(traces)]
    if len(verdicts) != len(rows):
        raise Stop(f"{module} judged {len(verdicts)} of {len(rows)} traces")
    c.traces += len(rows)
    c.notes[f"{what}.judged"] = c.notes.get(f"{what}.judged", 0) + len(rows)
    return [(row, verdicts[row["id"]]) for row in rows if verdicts[row["id"]]], rows


@prop("C03")
def c03(c):
    n = c.size(1200, 6000)
    for i in range(1 if c.quick else 4):
        scenes, out = probed(c, n, i)
        c.take(c.vh("replay-rough", report=f"int{i}.json", seed=c.seed + i, scenes=scenes, expected=out, variants=c.size(2, 8)), what="integer")
        c.take(c.vh("replay-rough-tiles", report=f"tiles{i}.json", seed=c.seed + i, scenes=scenes, expected=out, calls=c.size(300, 3000)), what="tiled")
        c.take(c.vh("replay-rough-float", report=f"float{i}.json", seed=c.seed + i, scenes=scenes, expected=out, variants=c.size(1, 4)), what="float")
        traces = c.path(f"traces{i}.ndjson")
        c.take(c.vh("record-rough", report=f"rec{i}.json", seed=c.seed * 1000 + 350 + i, n=c.size(400, 3000), traces=traces), what="recorded")
        bad, rows = judge(c, "RegionTrace", traces, "traces", i)
        for row, why in bad:
            c.violations.append({"case": row["id"], "part": "trace", "what": why, "trace": row})
        # traces that are wrong for sure have to be rejected
        spoilt = [dict(r, out=[[list(reversed(r["out"][0][0]))] + r["out"][0][1:]] + r["out"][1:]) for r in rows if r["out"]][:20]
        f = c.path(f"spoilt{i}.ndjson")
        open(f, "w").write("".join(json.dumps(r) + "\n" for r in spoilt))
        if len(judge(c, "RegionTrace", f, "spoilt", i)[0]) != len(spoilt):
            raise Stop("the specification accepts a spoilt trace")
        if c.violations:
            break
    return c.finish()


def mesh(c, kind, salt):
    n, v = c.size((5000, 6), (20000, 16))
    for i in range(1 if c.quick else 4):
        scenes = c.gen("gen-mesh", f"mesh{i}.ndjson", kind=kind, seed=c.seed * 1000 + salt + i, n=n)
        out = c.path(f"verdicts{i}")
        os.makedirs(out, exist_ok=True)
        c.model("MeshGen", env={"SCENES": scenes, "OUT": out})
        c.take(c.vh("replay-mesh", report=f"mesh{i}.json", seed=c.seed + i, scenes=scenes, expected=out, variants=v))
        # figures of one style, many in a call
        scenes = c.gen("gen-mesh", f"crowd{i}.ndjson", kind=kind, seed=c.seed * 1000 + salt + 50 + i, n=c.size(600, 3000), share=20)
        out = c.path(f"crowd{i}")
        os.makedirs(out, exist_ok=True)
        c.model("MeshGen", env={"SCENES": scenes, "OUT": out})
        for size, calls in ((1000, c.size(200, 2000)), (16000, c.size(12, 100))):
            c.take(c.vh("replay-crowd-mesh", report=f"crowd{i}-{size}.json", seed=c.seed + i, scenes=scenes, expected=out, calls=calls, largest=size), what="crowd")
        if c.violations:
            break
    return c.finish()


@prop("C12")
def c12(c):
    return mesh(c, "stroke", 1200)


@prop("C13")
def c13(c):
    return mesh(c, "outline", 1300)


@prop("C14")
def c14(c):
    c.model("DivideMC" if c.quick else "DivideMCdeep")
    for i in range(1 if c.quick else 6):
        traces = c.path(f"divisions{i}.ndjson")
        c.take(c.vh("record-divide", report=f"divide{i}.json", seed=c.seed * 1000 + 1400 + i, n=c.size(20000, 100000), traces=traces))
        bad, rows = judge(c, "DivideTrace", traces, "divisions", i)
        for row, why in bad:
            c.violations.append({"case": row["id"], "what": why, "trace": row})
        spoilt = [dict(r, out=r["out"][1:]) for r in rows if r["out"]][:50]
        f = c.path(f"spoilt{i}.ndjson")
        open(f, "w").write("".join(json.dumps(r) + "\n" for r in spoilt))
        if len(judge(c, "DivideTrace", f, "spoilt", i)[0]) != len(spoilt):
            raise Stop("the specification accepts a spoilt trace")
        if c.violations:
            break
    return c.finish()


@prop("C15")
def c15(c):
    for i in range(1 if c.quick else 4):
        scenes = c.gen("gen-rough-lines", f"lines{i}.ndjson", seed=c.seed * 1000 + 1500 + i, n=c.size(900, 6000))
        out = c.path(f"probes{i}")
        os.makedirs(out, exist_ok=True)
        c.model("RegionLines", env={"SCENES": scenes, "OUT": out})
        c.take(c.vh("replay-rough-lines", report=f"lines{i}.json", seed=c.seed + i, scenes=scenes, expected=out, variants=c.size(4, 10)))
        if c.violations:
            break
    return c.finish()


@prop("C16")
def c16(c):
    small = c.gen("gen-session", "small.ndjson", seed=c.seed * 1000 + 1600, small=1, n=c.size(10, 8), steps=c.size(3, 4), probes=6)
    c.model("Session", env={"SCENES": small, "ORDER": "any", "OUT": c.dir}, timeout=3600)
    for i in range(1 if c.quick else 4):
        scenes = c.gen("gen-session", f"programs{i}.ndjson", seed=c.seed * 1000 + 1600 + i, n=c.size(3000, 12000), steps=18 + 4 * i)
        out = c.path(f"behaviours{i}")
        os.makedirs(out, exist_ok=True)
        c.model("Session", env={"SCENES": scenes, "ORDER": "dice", "OUT": out}, timeout=3600)
        c.take(c.vh("replay-session", report=f"session{i}.json", seed=c.seed + i, scenes=scenes, expected=out, variants=c.size(40, 100)))
        if c.violations:
            break
    return c.finish()


@prop("C17")
def c17(c):
    small = c.gen("gen-small", "small.ndjson", seed=c.seed * 1000 + 17, n=c.size(40, 1500), kinds="0,1,2,3", probes=6)
    c.model("NetMC", env={"SCENES": small}, timeout=3600)
    for i in range(1 if c.quick else 4):
        scenes, out = probed(c, c.size(900, 6000), 1700 + i)
        c.take(c.vh("replay-rough-vectors", report=f"vectors{i}.json", seed=c.seed + i, scenes=scenes, expected=out, variants=c.size(2, 8)))
        traces = c.path(f"nets{i}.ndjson")
        c.take(c.vh("record-rough-vectors", report=f"rec{i}.json", seed=c.seed * 1000 + 1750 + i, n=c.size(350, 3000), traces=traces), what="recorded")
        bad, rows = judge(c, "VectorTrace", traces, "nets", i)
        for row, why in bad:
            c.violations.append({"case": row["id"], "part": "trace", "what": why, "trace": row})
        # a piece missing under an outline, and an outline walked backwards
        spoilt = []
        for r in [r for r in rows if r["out"]][:30]:
            x, y, u, w, f = r["out"][0][0][0]
            at = [e for e in r["net"] if sorted([e[:2], e[2:4]]) == sorted([[x, y], [u, w]])]
            if at:
                spoilt.append(dict(r, net=[e for e in r["net"] if e is not at[0]]))
            back = [[e[2], e[3], e[0], e[1], e[4]] for e in reversed(r["out"][0][0])]
            spoilt.append(dict(r, out=[[back] + r["out"][0][1:]] + r["out"][1:]))
        spoilt = [dict(r, id=k + 1) for k, r in enumerate(spoilt)]
        f = c.path(f"spoilt{i}.ndjson")
        open(f, "w").write("".join(json.dumps(r) + "\n" for r in spoilt))
        if len(judge(c, "VectorTrace", f, "spoilt", i)[0]) != len(spoilt):
            raise Stop("the specification accepts a spoilt net")
        if c.violations:
            break
    return c.finish()
