"""C23: filtered observables against Filter.tla."""
import json, random
import history

MC = """SPECIFICATION Spec
CONSTANTS Steps = %d ChainSet = "%s" Items = {%s} MaxSubs = %d Echo = {%s}
INVARIANTS Follows Exact Emit
CHECK_DEADLOCK FALSE
"""
TRACE = """SPECIFICATION TraceSpec
INVARIANTS Report
CHECK_DEADLOCK FALSE
"""


def replay_cases(c, f, what):
    g = f + ".out"
    r = c.harness("filter-run", "--in", f, "--out", g, cases=f)
    rows, rejected, mine = history.judge(c, "FilterTrace", TRACE, g, c.pid, what, "filter", keep=("replay",), chunk=8000)
    if len(c.samples) < 4:
        with open(g) as fh:
            for i, l in enumerate(fh):
                if i == rows // 2:
                    c.samples.append({"from": what, "history": json.loads(l)})
    c.note("%s: %d histories run on the code, %d events, %d rejected" % (what, rows, r["events"], rejected))


def kind(rnd, cmds):
    """items of one kind: shared, a byte, large, or ones that carry nothing (all of them 0)"""
    item = rnd.choice([0, 0, 1, 1, 2, 2, 3])
    if item == 3:
        for x in cmds:
            if x["op"] == "pub":
                x["x"] = 0
    return {"replay": rnd.random() < 0.4 and not any("echo" in x for x in cmds), "item": item, "cmds": cmds}


def enumerated(c, steps, chains, items, subs, echo="FALSE"):
    out = c.tlc("FilterMC", MC % (steps, chains, items, subs, echo), what="filters as built follow Filter, observers get exactly the matching items (%d operations, %s chains)" % (steps, chains))
    f = c.path("fl-%d-%s-%s" % (steps, chains, echo))
    history.collect(c, out, f)
    replay_cases(c, f, "all histories of %d operations over %s chains%s" % (steps, chains, ", one observer echoing" if echo != "FALSE" else ""))


def simulated(c, num, steps, items, subs):
    out = c.tlc("FilterMC", MC % (steps, "all", items, subs, "TRUE, FALSE"), simulate=num, depth=steps + 2)
    f = c.path("fls-%d" % steps)
    history.collect(c, out, f)
    replay_cases(c, f, "random histories of the specification, %d operations" % steps)


def recorded(c, num, seed, top, items=9):
    rnd = random.Random(seed)
    f = c.path("flr-%d" % seed)
    with open(f, "w") as w:
        for _ in range(num):
            cmds, filters, nf, subs, gone = [], [0], 0, 0, set()
            # each history has its own taste
            ws = [rnd.choice([0.5, 1, 3]) * x for x in (1.5, 2, 0.7, 0.4, 6)]
            preds = rnd.sample([1, 2, 3, 4, 5, 6], rnd.randint(1, 4)) + [6] * rnd.choice([0, 1])
            high = rnd.choice([3, items, 200])
            echoes = rnd.choice([0, 0, 1, 2, 3])
            for _ in range(rnd.randint(2, top)):
                k = rnd.choices(["make", "sub", "unsub", "unmake", "pub"], ws)[0]
                if k == "make" and nf < 30:
                    cmds.append({"op": "make", "chain": [rnd.choice(preds) for _ in range(rnd.choice([1, 1, 2, 2, 3, 3, 4, 5, 0]))]})
                    nf += 1
                    filters.append(nf)
                elif k == "unmake" and len(filters) > 1:
                    x = rnd.choice(filters[1:])
                    filters.remove(x)
                    cmds.append({"op": k, "f": x})
                elif k == "sub" and subs < 40:
                    cmds.append({"op": "sub", "f": rnd.choice(filters + filters[-1:] * 3)})
                    if echoes and rnd.random() < 0.4:
                        cmds[-1]["echo"] = True
                        echoes -= 1
                    subs += 1
                elif k == "unsub" and subs:
                    o = rnd.randint(1, subs)
                    if o not in gone:
                        gone.add(o)
                        cmds.append({"op": "unsub", "o": o})
                else:
                    cmds.append({"op": "pub", "x": rnd.randint(0, high)})
            w.write(json.dumps(kind(rnd, cmds)) + "\n")
    replay_cases(c, f, "random recorded histories of up to %d operations" % top)


def many(c, num, seed):
    """thousands of items to few observers, many observers of few items"""
    rnd = random.Random(seed)
    f = c.path("flm-%d" % seed)
    with open(f, "w") as w:
        for _ in range(num):
            cmds = [{"op": "make", "chain": [rnd.choice([1, 2, 3, 5, 6]) for _ in range(rnd.choice([1, 2]))]} for _ in range(2)]
            k = rnd.choice([1, 2, 2, 130, 260])
            cmds += [{"op": "sub", "f": rnd.randint(1, 2)} for _ in range(k)]
            cmds += [{"op": "pub", "x": rnd.randint(0, 200)} for _ in range(1200 if k < 3 else 12)]
            if rnd.random() < 0.5:
                cmds += [{"op": "unsub", "o": rnd.randint(1, k)}]
            cmds += [{"op": "pub", "x": rnd.randint(0, 200)} for _ in range(5)]
            w.write(json.dumps(kind(rnd, cmds)) + "\n")
    replay_cases(c, f, "many items, many observers")


def run(c):
    if c.quick:
        c.parallel([lambda: enumerated(c, 5, "few", "2, 3", 3), lambda: enumerated(c, 4, "few", "2, 3", 3, "TRUE, FALSE"),
                    lambda: simulated(c, 200, 14, "0, 1, 2, 3, 4, 5, 6, 7", 4),
                    lambda: recorded(c, 3000, c.seed, 40),
                    lambda: recorded(c, 150, c.seed + 1, 300),
                    lambda: many(c, 20, c.seed)])
    else:
        enumerated(c, 6, "few", "2, 3", 3)
        enumerated(c, 5, "few", "2, 3", 3, "TRUE, FALSE")
        for k in range(8):
            c.parallel([lambda: simulated(c, 1500, 25, "0, 1, 2, 3, 4, 5, 6, 7", 6),
                        lambda: recorded(c, 8000, c.seed * 100 + k, 80),
                        lambda: recorded(c, 400, c.seed * 1000 + k, 600),
                        lambda: many(c, 60, c.seed * 100 + k)])


def replay(c, d):
    f = c.path("one")
    with open(f, "w") as w:
        w.write(json.dumps(d["case"]) + "\n")
    replay_cases(c, f, "replayed")
