"""C01-C08 and C24: parsers against the machine of Peg.tla."""
import json, random
import history
from core import Violation

TRACE_CFG = """SPECIFICATION TraceSpec
CONSTANT View = "%s"
INVARIANTS Report PositionsSound AnchorsSound
PROPERTIES RecoveryRestores FatalPropagates NoEscalation
CHECK_DEADLOCK FALSE
"""
ENUM_CFG = """SPECIFICATION EnumSpec
CONSTANTS Family = "%s" MaxLen = %d Deep = %s
INVARIANTS MatchesMeaning CallsMatchMeaning PositionsSound AnchorsSound NoStuck Emit
PROPERTIES RecoveryRestores FatalPropagates NoEscalation
CHECK_DEADLOCK FALSE
"""


def brief(r):
    return {k: r[k] for k in ("input", "cmds", "obs", "log")}


def judge(c, lines_file, view, across, what):
    """Has TLC check recorded outcomes; `across`: None - every rejected one counts; "mode"/"carrier" -
    a rejected one counts where the same case came out differently in another mode (on the same
    carrier) or on another carrier (in the same mode)."""
    rows = [json.loads(l) for l in open(lines_file)]
    if not rows:
        return 0
    out = c.tlc("PegTrace", TRACE_CFG % view, env={"CASES": lines_file})
    stuck = list(c.printed(out, "STUCK"))
    if stuck:
        from core import ToolError
        raise ToolError("the machine is stuck on recorded case %s: %s" % (stuck[0], json.dumps(brief(rows[int(stuck[0]) - 1]))))
    bad = {}
    for t in c.printed(out, "MISMATCH"):
        m = json.loads(t)
        bad[m["line"] - 1] = m
    if across:
        keep = {}
        for i, m in bad.items():
            r = rows[i]
            mine = set(tuple(x.rsplit("/", 1)) for x in r["runs"])
            others = set(tuple(x.rsplit("/", 1)) for x in r["others"])
            if across == "mode":
                hit = any(x[0] == y[0] for x in mine for y in others)
            else:
                hit = any(x[1] == y[1] for x in mine for y in others)
            if hit:
                keep[i] = m
        bad = keep
    order = sorted(bad, key=lambda i: len(json.dumps(brief(rows[i]))))
    for i in order[:3]:
        r, m = rows[i], bad[i]
        c.violation("%s: input %s, commands %s: got %s, calls %s; the specification gives %s, calls %s (runs %s)" % (
            what, r["input"], json.dumps(r["cmds"]), json.dumps(r["obs"]), json.dumps(r["log"]),
            json.dumps(m["obs"]), json.dumps(m["log"]), r["runs"][:4]),
            {"kind": "peg", "view": view, "case": {"input": r["input"], "cmds": r["cmds"]}, "index": r["case"],
             "runseed": r["seed"], "got": {"obs": r["obs"], "log": r["log"], "runs": r["runs"]},
             "want": {"obs": m["obs"], "log": m["log"]}})
    return len(bad)


def from_spec(c, family, maxlen, deep, view, across, full=True):
    """behaviours of the specification, replayed on the code"""
    out = c.tlc("PegEnum", ENUM_CFG % (family, maxlen, "TRUE" if deep else "FALSE"))
    f, g = c.path("enum-%s" % family), c.path("enum-%s.out" % family)
    n = 0
    with open(f, "w") as w:
        for t in c.printed(out, "CASE"):
            w.write(t + "\n")
            n += 1
            if n in (2000, 4001):
                c.samples.append({"from": "specification", "case": json.loads(t)})
    r = c.harness("peg-run", "--in", f, "--out", g, "--seed", c.seed, "--full", 1 if full else 0, cases=f)
    c.traces += r["cases"]
    bad = judge(c, g, view, across, "behaviour of the specification not followed")
    c.note("spec->code %s(len<=%d%s): %d behaviours enumerated, %d runs of real parsers, %d differ from the prediction, %d count here" % (
        family, maxlen, ", deep" if deep else "", r["cases"], r["runs"], r["lines"], bad))


def from_code(c, family, n, view, across, seed, full=True):
    """recorded runs of the code, checked against the specification"""
    f, g = c.path("gen-%s-%d" % (family, seed)), c.path("gen-%s-%d.out" % (family, seed))
    c.harness("peg-gen", "--family", family, "--n", n, "--seed", seed, "--out", f)
    r = c.harness("peg-run", "--in", f, "--out", g, "--seed", seed, "--full", 1 if full else 0, cases=f)
    c.traces += r["lines"]
    with open(g) as fh:
        for i, l in enumerate(fh):
            if i == 100:
                c.samples.append({"from": "code, " + family, "case": brief(json.loads(l))})
                break
    bad = judge(c, g, view, across, "recorded run rejected")
    c.note("code->spec %s: %d random parsers, %d runs, %d distinct outcomes checked by TLC, %d rejected" % (
        family, r["cases"], r["runs"], r["lines"], bad))


def errors(c, depth):
    """which composite errors ask to stop: every composite of the specification, asked of the real ones"""
    out = c.tlc("Errors", "SPECIFICATION Spec\nCONSTANT Depth = %d\nINVARIANTS TerminatesIffOneHeldDoes Emit\nCHECK_DEADLOCK FALSE\n" % depth)
    f, g = c.path("errors"), c.path("errors.out")
    with open(f, "w") as w:
        for t in c.printed(out, "CASE"):
            w.write(t + "\n")
    n = c.harness("errors-run", "--in", f, "--out", g, cases=f)["cases"]
    c.traces += n
    bad = [r for r in map(json.loads, open(g)) if r["ev"] != [r["t"]]]
    for r in sorted(bad, key=lambda r: len(json.dumps(r)))[:2]:
        c.violation("composite error %s: should_terminate gives %s, the specification %s" % (json.dumps(r["e"]), r["ev"][0], r["t"]),
                    {"kind": "errors", "e": r["e"], "got": r["ev"][0], "want": r["t"]})
    c.note("spec->code composite errors (depth %d): %d, %d differ" % (depth, n, len(bad)))


def sides(c, case=None):
    """what a choice holds, asked for by side: every question of the specification, asked of the real ones"""
    f, g = c.path("sides"), c.path("sides.out")
    with open(f, "w") as w:
        if case:
            w.write(json.dumps(case) + "\n")
        else:
            out = c.tlc("Sides", "SPECIFICATION Spec\nCONSTANT Vals = {1, 2, 3}\nINVARIANTS AnswersHeld RefusesOnlyUnwrap Emit\nCHECK_DEADLOCK FALSE\n")
            for t in c.printed(out, "CASE"):
                w.write(t + "\n")
    n = c.harness("sides-run", "--in", f, "--out", g, cases=f)["cases"]
    c.traces += n
    bad = [r for r in map(json.loads, open(g)) if r["ev"] != [r["want"]]]
    for r in bad[:2]:
        c.violation("a choice holding %s, asked %s: gives %s, the specification %s" % (
            {"first": r["a"]} if r["first"] else {"last": r["b"]}, r["ask"], json.dumps(r["ev"][0]), json.dumps(r["want"])),
            {"kind": "sides", "case": {k: r[k] for k in ("first", "last", "a", "b", "ask", "want")}})
    c.note("spec->code what a choice holds: %d questions, %d answered otherwise" % (n, len(bad)))


UNIFORM_TRACE = """SPECIFICATION TraceSpec
INVARIANT Report
CHECK_DEADLOCK FALSE
"""
UNIFORM_MC = """SPECIFICATION MCSpec
CONSTANTS MaxN = %d Depth = %d
INVARIANT Agrees
CHECK_DEADLOCK FALSE
"""
# property -> kinds of parsers on long uniform inputs
UNIFORM = {"C01": ["rep", "try", "opt"], "C03": ["rep", "try", "atom", "collect"], "C04": ["collect", "fold"], "C05": ["rep", "collect", "bin"],
           "C06": ["atom", "rep"], "C07": ["bin"], "C08": ["bin"], "C24": ["atom", "opt", "rep"]}
ALL = [0, 1, 2, 3, 4, 5, 6]
ITEM = {"k": "the", "c": 0}
# just beside what a counter of some width can hold
EDGES = [127, 128, 129, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 70000, 131073]


def pipe(rng, depth, n):
    x = {"k": "irep" if rng.random() < 0.95 else "iopt", "a": ITEM}
    kinds = ["take", "take", "each", "scan", "mwhile", "tryeach", "iref", "iunit"]
    for _ in range(depth):
        k = rng.choice(kinds)
        if k == "iunit":
            # nothing is left to tell of behind it
            kinds = ["take", "iref"]
        y = {"k": k, "a": x}
        if k == "take":
            y["n"] = max(0, rng.choice([n, n - 1, n + 1, rng.choice(EDGES), rng.choice(EDGES), 1 << 30]))
        if k == "scan":
            y["n"] = rng.randrange(3)
        if k in ("mwhile", "tryeach"):
            y["acc"] = ALL
        if k == "tryeach":
            y["f"] = True
        x = y
    return x


def uniform_cases(kinds, seed, rounds):
    rng = random.Random(seed)
    for r in rounds:
        for n in [65535, 65536, 65537, 70000, 131073] if r == 0 else [rng.choice(EDGES), rng.choice(EDGES), rng.randrange(60000, 140000)]:
            for k in [k for k in kinds for _ in range(4 if k in ("collect", "fold") and r == 0 else 1)]:
                at = 0 if rng.random() < 0.7 else rng.choice([0, 1, 2, n // 2, n])
                x = {"k": k}
                if k in ("collect", "fold"):
                    x["a"] = pipe(rng, rng.randrange(4) if r else 1 + rng.randrange(2), n - at)
                if k == "atom":
                    x.update(w=max(0, n - at + rng.choice([0, 0, 1, -1, -70000])), form=rng.randrange(6))
                if k == "bin":
                    x.update(right=rng.random() < 0.5, prec=rng.randrange(7))
                yield {"n": n, "t": rng.randrange(2), "at": at, "x": x, "seed": rng.randrange(1 << 30),
                       "on": rng.choice(["str", "slice", "measured-str", "measured-slice", "pieces-str", "pieces-slice"])}


def uniform(c, seed, rounds):
    """inputs of thousands of items that are all alike; what is to come out is a matter of numbers"""
    f, g = c.path("uniform-%d" % seed), c.path("uniform-%d.out" % seed)
    with open(f, "w") as w:
        for x in uniform_cases(UNIFORM[c.pid], seed, rounds):
            w.write(json.dumps(x) + "\n")
    c.harness("uniform-run", "--in", f, "--out", g, cases=f)
    rows, rejected, bad = history.judge(c, "UniformTrace", UNIFORM_TRACE, g, None, "long uniform input", "uniform", keep=("n", "t", "at", "x"))
    c.note("code->spec long uniform inputs (up to 140000 items): %d runs checked by TLC, %d rejected" % (rows, rejected))


# property -> view, across, enumerated families, recorded families with their size
PLAN = {
    "C01": ("positions", None, ["nest"], {"recover": 3000, "all": 3000, "long": 60}),
    "C02": ("fatal", None, ["basic"], {"fatal": 3000, "all": 3000, "long": 20}),
    "C03": ("full", None, ["basic", "nest"], {"all": 3000, "long": 60}),
    "C04": ("full", None, ["iter"], {"iter": 3000, "long": 60}),
    "C05": ("full", "mode", ["reuse"], {"reuse": 3000, "all": 3000, "long": 30}),
    "C06": ("full", "carrier", ["prim"], {"prim": 3000, "all": 3000, "long": 60}),
    "C07": ("values", None, ["bintree"], {"bintree": 3000, "longbin": 60}),
    "C08": ("full", None, ["binstop"], {"binstop": 3000, "longbin": 60}),
    "C24": ("full", None, ["prim"], {"prim": 3000, "long": 40}),
}


def run(c):
    view, across, enum, rec = PLAN[c.pid]
    jobs = []
    if c.pid == "C02":
        jobs.append(lambda: errors(c, 2))
    if c.pid == "C03":
        jobs.append(lambda: sides(c))
    if c.pid in UNIFORM:
        jobs.append(lambda: c.tlc("UniformMC", UNIFORM_MC % (4 if c.quick else 5, 2)))
    if c.quick:
        if c.pid in UNIFORM:
            jobs += [lambda k=k: uniform(c, c.seed * 2 + k, [k]) for k in (0, 1)]
        jobs += [lambda f=f: from_spec(c, f, 3, False, view, across) for f in enum]
        jobs += [lambda k=k, f=f: from_code(c, f, rec[f], view, across, c.seed * 1000 + k) for k, f in enumerate(rec)]
        c.parallel(jobs)
    else:
        c.parallel(jobs)
        for f in enum:
            from_spec(c, f, 3, True, view, across)
            from_spec(c, f, 4 if f != "prim" else 3, False, view, across)
        for rnd in range(20):
            if c.pid in UNIFORM:
                uniform(c, c.seed * 1000 + rnd, [0, 1, 1, 1])
            c.parallel([lambda k=k, f=f: from_code(c, f, rec[f] * 3, view, across, c.seed * 100000 + rnd * 100 + k)
                        for k, f in enumerate(rec)])


def replay(c, d):
    f, g = c.path("one"), c.path("one.out")
    if d["kind"] == "sides":
        return sides(c, d["case"])
    if d["kind"] == "errors":
        with open(f, "w") as w:
            w.write(json.dumps({"e": d["e"]}) + "\n")
        c.harness("errors-run", "--in", f, "--out", g, cases=f)
        got = json.loads(open(g).readline())["ev"][0]
        if got != d["want"]:
            c.violation("composite error %s: should_terminate gives %s, the specification %s" % (json.dumps(d["e"]), got, d["want"]), d)
        return
    with open(f, "w") as w:
        w.write(json.dumps(d["case"]) + "\n")
    if d["kind"] == "uniform":
        c.harness("uniform-run", "--in", f, "--out", g, cases=f)
        history.judge(c, "UniformTrace", UNIFORM_TRACE, g, None, "long uniform input", "uniform", keep=("n", "t", "at", "x"))
        return
    for seed in [d.get("runseed", 1)] + list(range(20)):
        c.harness("peg-run", "--in", f, "--out", g, "--seed", seed, cases=f)
        view, across = PLAN[c.pid][:2]
        if judge(c, g, view, across, "replayed"):
            return
