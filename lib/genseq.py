"""C12-C15, C25: the generic sequence against GenSeq.tla."""
import json, random
import history, utf8

MC = """SPECIFICATION Spec
CONSTANTS Family = "%s" Steps = %d StratK = "%s" StratA = %d Random = %s
INVARIANTS Refines SpecSound Corresponds Emit
CHECK_DEADLOCK FALSE
"""
TRACE = """SPECIFICATION TraceSpec
INVARIANTS Report Accepted
CHECK_DEADLOCK FALSE
"""
# the strategies used: at least what is asked for, each of a different shape
STRATS = [("exact", 0), ("plus", 1), ("mul", 2), ("atleast", 4), ("plus", 7)]


def replay_cases(c, f, n, what):
    g = f + ".out"
    r = c.harness("genseq-run", "--in", f, "--out", g, cases=f)
    rows, rejected, mine = history.judge(c, "GenSeqTrace", TRACE, g, c.pid, what, "genseq", keep=("src", "runs"))
    if not c.samples or len(c.samples) < 4:
        with open(g) as fh:
            for i, l in enumerate(fh):
                if i == n // 2:
                    c.samples.append({"from": what, "history": json.loads(l)})
    c.note("%s: %d histories run on the code, %d events, %d rejected by GenSeq, %d of them for %s" % (
        what, r["cases"], r["events"], rejected, mine, c.pid))


def enumerated(c, family, steps, strat):
    out = c.tlc("GenSeqImpl", MC % (family, steps, strat[0], strat[1], "FALSE"), what="implementation model refines GenSeq (%s, %d commands, %s %d)" % ((family, steps) + strat))
    f = c.path("%s-%d-%s%d" % (family, steps, strat[0], strat[1]))
    n = history.collect(c, out, f)
    replay_cases(c, f, n, "histories of the specification, family %s, %d commands, strategy %s %d" % ((family, steps) + strat))


def simulated(c, family, num, steps, strat, seed):
    out = c.tlc("GenSeqImpl", MC % (family, steps, strat[0], strat[1], "TRUE"), simulate=num, depth=steps + 3, seed=seed)
    f = c.path("sim-%s-%d-%s%d-%d" % (family, steps, strat[0], strat[1], seed))
    n = history.collect(c, out, f)
    replay_cases(c, f, n, "random behaviours of the specification, family %s, %d commands, strategy %s %d" % ((family, steps) + strat))


def recorded(c, n, seed, bulk=False):
    """random histories beyond what the specification enumerates: bigger amounts, waiting sources, the iterator source"""
    rnd = random.Random(seed * 2 + bulk)
    f = c.path("rec-%d%s" % (seed, "b" if bulk else ""))
    with open(f, "w") as w:
        for _ in range(n):
            w.write(json.dumps(history_of(rnd, bulk)) + "\n")
    replay_cases(c, f, n, "random recorded histories" + (" of large pieces" if bulk else ""))


def blank(c, n, seed):
    """random histories of items that have no size: only how many there are can be told"""
    rnd = random.Random(seed * 5 + 3)
    f = c.path("blank-%d" % seed)
    with open(f, "w") as w:
        for _ in range(n):
            h = dict(history_of(rnd), blank=True)
            if h["src"] == "script":
                h["src"] = "unsized"    # not all that holds of items with numbers holds of these
            w.write(json.dumps(h) + "\n")
    replay_cases(c, f, n, "random histories of items without size")


# a block of this many items is one item of the specification: so that few of them are about 2^12 ... 2^17
UNITS = [4096, 8191, 8193, 10923, 13108, 16384, 21845, 21846, 32767, 32768] + [65535, 65536, 65537] * 3


def scaled(c, n, seed):
    """random histories in which every item stands for thousands"""
    rnd = random.Random(seed * 5 + 3)
    f = c.path("scaled-%d" % seed)
    with open(f, "w") as w:
        for _ in range(n):
            h = history_of(rnd, huge=True)
            w.write(json.dumps(dict(h, unit=rnd.choice(UNITS))) + "\n")
    replay_cases(c, f, n, "random histories of blocks of 4096 to 65537 items")


EDGES = [0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 200, 255, 256, 257, 300, 500, 511, 512, 513, 514,
         700, 1000, 1023, 1024, 1025, 1026, 1500, 2047, 2048, 2049, 3000]


def history_of(rnd, bulk=False, huge=False):
    src = rnd.choice(["script", "script", "iter"])
    k = rnd.choice(["exact", "plus", "mul", "atleast"])
    strat = {"k": k, "a": rnd.randint(0, 20) if k != "mul" else rnd.randint(1, 5)}
    if huge:
        strat["a"] = rnd.choice([0, 1, 3]) if k != "mul" else rnd.choice([1, 2])
    if bulk and k == "atleast":
        strat["a"] = rnd.choice(EDGES)
    buf = ldr = True
    fin = False
    its, alive, cmds = 0, [], []
    # each history has its own taste
    weight = {o: rnd.choice([0, 1, 1, 3, 6]) for o in ("force", "consume", "iter", "next")}
    weight["load"] = rnd.choice([2, 4, 8])
    outs = ["adv"] * 8 + rnd.choice([[], ["cancel", "ctl", "abandon", "abandon"]]) + rnd.choice([[], ["fin"]])
    few = rnd.choice([[0, 1], [1, 2, 3], [0, 1, 2, 3, 5, 10, 50, 10**8]])
    big = rnd.choice([1, 2, 3, 8, 30] if not huge else [1, 2, 5])
    last = rnd.choice([1, 2, 100])
    edge = rnd.choice([EDGES, EDGES, EDGES[:20], EDGES[20:]])
    size = (lambda: min(2100, max(0, rnd.choice(edge) + rnd.choice([0, 0, 0, -1, 1])))) if bulk else (lambda: rnd.randint(0, big))
    for left in reversed(range(rnd.randint(1, rnd.choice([3, 6, 10] if bulk or huge else [6, 15, 40])))):
        ops = ([o for o in ("load", "force") if ldr]) + ([o for o in ("consume", "iter") if buf]) + (["next"] if buf and alive else [])
        ops = [o for o in ops for _ in range(weight[o])]
        if rnd.random() < 0.03:
            ops = (["dropbuf"] if buf else []) + (["dropldr"] if ldr else [])
        if not ops:
            break
        op = rnd.choice(ops)
        if op == "load":
            if src == "iter":
                if fin or "fin" in outs and rnd.random() < 0.1:
                    fin = True
                    cmds.append({"op": "load", "out": "fin"})
                else:
                    cmds.append({"op": "load", "out": "adv", "k": rnd.choice([0, size(), size()]) if bulk or huge else rnd.choice([0, 1, 2, 3, 5])})
            else:
                wait = rnd.choice([0, 0, 1, 2])
                out = rnd.choice(outs) if not fin else rnd.choice(["fin", "ctl"])
                if huge and left < 2 and rnd.random() < 0.6:
                    out = "fin"
                if out in ("fin", "ctl"):
                    fin = fin or out == "fin"
                    cmds.append({"op": "load", "out": out, "wait": wait})
                else:
                    n = rnd.choice([size(), big]) if huge else size()
                    ops2 = []
                    if (bulk or huge) and rnd.random() < (0.8 if huge else 0.6):
                        ops2.append({rnd.choice(["fill", "fill", "raw"]): n + rnd.choice([0, 0, 0, 1, 1 if huge else 20])})
                    for _ in range(rnd.randint(0, 3 if bulk else 4)):
                        x = rnd.random()
                        k = size()
                        ops2.append({"fill" if bulk or huge else "push": k} if x < 0.5 else {"raw": k} if x < 0.6 else {"shrink": k} if x < 0.85 else {"wait": 1})
                    cmds.append({"op": "load", "out": out, "n": n, "ops": ops2, "wait": wait})
                    if out == "abandon":
                        # given up in the middle of writing, or when the source has already said how the load ends
                        late = rnd.choice(["", "", "adv", "adv", "fin", "cancel", "ctl"])
                        if late:
                            cmds[-1]["late"] = late
        elif op == "consume":
            alive = []
            cmds.append({"op": "consume", "n": rnd.choice([1, size(), size(), 10**8]) if bulk else rnd.choice(few)})
        elif op == "iter":
            its += 1
            alive = (alive + [its])[-last:]
            cmds.append({"op": "iter", "i": its})
        elif op == "next":
            cmds.append({"op": "next", "i": rnd.choice(alive)})
        else:
            if op == "dropbuf":
                buf, alive = False, []
            elif op == "dropldr":
                ldr = False
            cmds.append({"op": op})
    if ldr:
        cmds.append({"op": "force"})
    if buf and rnd.random() < 0.5:
        cmds.append({"op": "consume", "n": rnd.choice([1, 4, 10**6])})
    end = (["dropbuf"] if buf else []) + (["dropldr"] if ldr else [])
    rnd.shuffle(end)
    return {"strat": strat, "via": rnd.choice(["", "", "", "rc", "arc", "ref"]), "src": src, "runs": bulk, "wide": rnd.random() < 0.3, "cmds": cmds + [{"op": e} for e in end]}


def many(c, n, seed):
    """thousands of segments at once: loads in bursts, watched from time to time"""
    rnd = random.Random(seed * 3 + 7)
    f = c.path("many-%d" % seed)
    with open(f, "w") as w:
        for _ in range(n):
            w.write(json.dumps(many_of(rnd)) + "\n")
    replay_cases(c, f, n, "histories of many segments")


def many_of(rnd):
    k = rnd.choice(["exact", "exact", "plus", "atleast"])
    total = pos = its = 0
    alive, cmds = [], []
    for _ in range(rnd.randint(1, 3)):
        for _ in range(rnd.randint(1, 2)):
            k1, m = rnd.choice([17, 33, 64, 100, 128, 129, 200, 255, 256, 257, 258, 300, 400, 512, 513, 600]), rnd.choice([1, 1, 1, 2, 3])
            cmds.append({"op": "burst", "k": k1, "m": m})
            total += k1 * m
            if rnd.random() < 0.3:
                its += 1
                alive.append(its)
                cmds.append({"op": "iter", "i": its})
                cmds += [{"op": "next", "i": its}] * rnd.randint(0, 3)
        if rnd.random() < 0.4:
            cmds.append({"op": "force"})
        for i in alive:
            if rnd.random() < 0.6:
                cmds.append({"op": "drain", "i": i})
        if rnd.random() < 0.8:
            alive = []
            d = rnd.choice([1, 255, 256, 257, 300, 513, max(0, total - pos - 1), max(0, total - pos), total - pos + 5, rnd.randint(0, total - pos)])
            pos = min(total, pos + d)
            cmds.append({"op": "consume", "n": d})
            if rnd.random() < 0.3:
                cmds.append({"op": "consume", "n": rnd.choice([0, 1, 2, 300])})
    if rnd.random() < 0.5:
        cmds += [{"op": "force"}, {"op": "consume", "n": rnd.choice([300, 10**6])}]
    end = ["dropbuf", "dropldr"]
    rnd.shuffle(end)
    return {"strat": {"k": k, "a": rnd.randint(0, 4)}, "src": "script", "runs": True, "wide": rnd.random() < 0.3, "cmds": cmds + [{"op": e} for e in end]}


def long_chains(c, n):
    r = c.harness("genseq-long", "--n", n, limit=60)
    for x in r["results"]:
        ok = not x.get("panic") and x["read_ok"] and x["released_ok"] and x["before"] == 0 and x["ret"] == (3 if x["how"] == "consume" else 0)
        c.traces += 1
        if not ok and (c.pid == "C25" or (not x.get("panic") and not x["read_ok"])):
            c.violation("a sequence of %d segments, released by %s: %s" % (n, x["how"], json.dumps(x)), {"kind": "genseq-long", "n": n, "result": x})
    c.note("chains of %d one-item segments: read back and released three ways" % n)


PAR = """SPECIFICATION TraceSpec
INVARIANTS Report
CHECK_DEADLOCK FALSE
"""


def parallel(c, n, seed):
    f, g = c.path("par-%d" % seed), c.path("par-%d.out" % seed)
    rnd = random.Random(seed)
    with open(f, "w") as w:
        for k in range(n):
            w.write(json.dumps({"seed": rnd.randrange(1 << 30), "loads": rnd.choice([2, 5, 12, 25])}) + "\n")
    r = c.harness("genseq-par", "--in", f, "--out", g, cases=f)
    rows, rejected, mine = history.judge(c, "GenSeqPar", PAR, g, c.pid, "a reader beside a loading thread", "genseq-par")
    c.note("reader beside a loading thread: %d runs of real threads, %d events, %d rejected" % (rows, r["events"], rejected))


# property -> families enumerated (quick), families (thorough)
PLAN = {
    "C12": [("hist", 3), ("writer", 2)],
    "C13": [("hist", 3), ("writer", 2)],
    "C14": [("read", 4), ("hist", 3)],
    "C15": [("writer", 2), ("writer", 2)],
    "C25": [("life", 3), ("hist", 3)],
}


def run(c):
    plan = PLAN[c.pid]
    strats = STRATS
    jobs = []
    if c.quick:
        for k, (fam, steps) in enumerate(plan):
            jobs.append(lambda fam=fam, steps=steps, k=k: enumerated(c, fam, steps, strats[(2 * k + 1) % 5]))
        jobs.append(lambda: simulated(c, "long", 1500, 12, strats[c.seed % 5], c.seed))
        if c.pid == "C14":
            jobs.append(lambda: simulated(c, "read", 2000, 10, strats[(c.seed + 1) % 5], c.seed))
        jobs.append(lambda: recorded(c, 5000, c.seed))
        jobs.append(lambda: recorded(c, 500, c.seed, bulk=True))
        jobs.append(lambda: scaled(c, 60, c.seed))
        jobs.append(lambda: blank(c, 800, c.seed))
        jobs.append(lambda: many(c, 60, c.seed))
    else:
        for fam, steps in plan:
            for st in strats:
                jobs.append(lambda fam=fam, steps=steps, st=st: enumerated(c, fam, steps, st))
        jobs.append(lambda: enumerated(c, plan[0][0], plan[0][1] + 1, strats[1]))
        for k in range(4):
            for st in strats:
                for fam in ("long", "read"):
                    jobs.append(lambda fam=fam, k=k, st=st: simulated(c, fam, 4000, 10 + 5 * k, st, c.seed * 100 + k))
        for k in range(20):
            jobs.append(lambda k=k: recorded(c, 6000, c.seed * 1000 + k))
            jobs.append(lambda k=k: recorded(c, 1000, c.seed * 1000 + k, bulk=True))
            jobs.append(lambda k=k: scaled(c, 200, c.seed * 1000 + k))
            jobs.append(lambda k=k: blank(c, 1500, c.seed * 1000 + k))
            jobs.append(lambda k=k: many(c, 200, c.seed * 1000 + k))
    if c.pid == "C14":
        for k in range(1 if c.quick else 20):
            jobs.append(lambda k=k: parallel(c, 500 if c.quick else 2000, c.seed * 100 + k))
    if c.pid == "C15":
        jobs += utf8.layer(c)
    c.parallel(jobs)
    if c.pid in ("C25", "C12"):
        long_chains(c, 100000)


def replay(c, d):
    if d["kind"] == "genseq-long":
        return long_chains(c, d["n"])
    if d["kind"] == "genseq-par":
        # the recorded run itself; the schedule cannot be forced
        g = c.path("one.out")
        with open(g, "w") as w:
            w.write(json.dumps(dict(d["case"], ev=d["ev"])) + "\n")
        history.judge(c, "GenSeqPar", PAR, g, c.pid, "replayed", "genseq-par")
        return
    f = c.path("one")
    with open(f, "w") as w:
        w.write(json.dumps(dict({"runs": False}, **d["case"])) + "\n")
    replay_cases(c, f, 1, "replayed")
