"""C11: line and column positions against LineCol.tla."""
import json, random
import history

MC = """SPECIFICATION Spec
CONSTANTS MaxLen = %d Deep = %s
INVARIANTS Exact RunsExact %s
CHECK_DEADLOCK FALSE
"""
TRACE = """SPECIFICATION TraceSpec
INVARIANTS Report
CHECK_DEADLOCK FALSE
"""


def replay_cases(c, f, what):
    g = f + ".out"
    r = c.harness("linecol-run", "--in", f, "--out", g, "--seed", c.seed, cases=f)
    rows, rejected, mine = history.judge(c, "LineColTrace", TRACE, g, c.pid, what, "linecol", keep=("conv", "before"), chunk=15000)
    if len(c.samples) < 4:
        with open(g) as fh:
            for i, l in enumerate(fh):
                if i == rows // 3:
                    c.samples.append({"from": what, "history": json.loads(l)})
    c.note("%s: %d texts, %d runs on the code (bare meter, measured string), %d positions, %d rejected" % (what, r["cases"], rows, r["events"], rejected))


CHARS = ["any", "any", "plain", "plain", "wide", "one"]

# as in LineCol.tla
LINES = [2, 3, 4, 255, 256, 257, 1000, 4095, 4096] + [32768, 65535, 65536, 65537, 70000]


def structured(rnd):
    """Runs of other characters between (fragments of) terminators, cut mostly where one meets the other."""
    text, cuts = [], []
    p = rnd.choice([0.1, 0.5, 0.9])
    for _ in range(rnd.randint(1, rnd.choice([3, 8, 20]))):
        if rnd.random() < 0.5:
            q = ["x%d" % k if k > 1 else "x" for k in [rnd.choice([1, 2, 3, 4, 7, 8, 15, 16, 17, 31, 32, 33, rnd.randint(1, 40)])]]
        else:
            q = list(rnd.choice(["r", "n", "rn", "rr", "nn", "nr", "rrn", "rnn"]))
        for j, u in enumerate(q):
            text.append(u)
            cuts.append(rnd.random() < (p if j + 1 == len(q) else 0.15))
    case = {"conv": rnd.choice(["lf", "cr", "crlf", "crlf"]), "text": text, "cuts": cuts, "chars": rnd.choice(CHARS)}
    if rnd.random() < 0.2:
        case["before"] = rnd.choices(["r", "n", "x", "x17", "x3"], k=rnd.randint(1, 6))
    return case


def run(c):
    c.tlc("LineColMC", MC % (9 if c.quick else 12, "FALSE", ""), what="the meter is exact for every text up to length %d" % (9 if c.quick else 12))
    n = 5 if c.quick else 6
    out = c.tlc("LineColMC", MC % (n, "TRUE", "Emit"))
    f = c.path("lc")
    rnd = random.Random(c.seed)

    def start(case):
        if rnd.random() < 0.2:
            case["before"] = [rnd.choice("rnx") for _ in range(rnd.randint(1, 6))]
        return case
    history.collect(c, out, f, start)
    replay_cases(c, f, "all texts up to length %d in all cuts, three conventions" % n)
    for k in range(1 if c.quick else 12):
        rnd = random.Random(c.seed * 1000 + k)
        f = c.path("lc-rec-%d" % k)
        with open(f, "w") as w:
            for _ in range(3000 if c.quick else 10000):
                m = rnd.choice([3, 10, 40, 120])
                ws = rnd.choice([(1, 1, 1), (3, 3, 1), (1, 1, 6)])
                p = rnd.choice([0.0, 0.2, 0.6])
                n = rnd.randint(0, m)
                case = {"conv": rnd.choice(["lf", "cr", "crlf"]), "text": rnd.choices("rnx", ws, k=n), "cuts": [rnd.random() < p for _ in range(n)]}
                if rnd.random() < 0.4:
                    case["before"] = rnd.choices("rnx", ws, k=rnd.randint(1, 8))
                if rnd.random() < 0.06:       # long lines
                    runs = rnd.sample([10, 60, 100, 127, 128, 255, 256, 300, 1000] + [4000, 4095, 4096, 5000] * 2, 3) + (
                        [rnd.choice([32767, 65535, 65536, 70000])] if rnd.random() < 0.2 else [])
                    case["text"] = ["x%d" % rnd.choice(runs) if u == "x" and rnd.random() < 0.6 else u for u in case["text"][:12]]
                    case["cuts"] = case["cuts"][:12]
                    if "before" in case:
                        case["before"] += ["x300"]
                elif rnd.random() < 0.03:     # many lines
                    case["text"] = [u + str(rnd.choice(LINES)) if rnd.random() < 0.4 else "c" + str(rnd.choice(LINES)) if rnd.random() < 0.1 else u
                                    for u in rnd.choices("rnx" if rnd.random() < 0.5 else "rn", k=8)]
                    case["text"] = ["x" if u[0] == "x" else u for u in case["text"]]
                    case["cuts"] = (case["cuts"] + [True] * 8)[:8]
                    if "before" in case and rnd.random() < 0.5:
                        case["before"] += [rnd.choice("rnc") + str(rnd.choice(LINES))]
                case["chars"] = rnd.choice(CHARS)
                w.write(json.dumps(case) + "\n")
        replay_cases(c, f, "random texts")
        f = c.path("lc-str-%d" % k)
        with open(f, "w") as w:
            for _ in range(3000 if c.quick else 10000):
                w.write(json.dumps(structured(rnd)) + "\n")
        replay_cases(c, f, "texts of words and terminators")


def replay(c, d):
    f = c.path("one")
    with open(f, "w") as w:
        w.write(json.dumps(d["case"]) + "\n")
    replay_cases(c, f, "replayed")
