"""C21, C22: the short vector against ShortVec.tla."""
import json, random
import history

MC = """SPECIFICATION Spec
CONSTANTS MaxN = %d MaxCap = %d Steps = %d Sizes = {0, 3} GRAN = 2
INVARIANTS Follows Agrees Emit
CHECK_DEADLOCK FALSE
"""
TRACE = """SPECIFICATION TraceSpec
INVARIANTS Report
CHECK_DEADLOCK FALSE
"""


def replay_cases(c, f, what, each, chunk=10000):
    g = f + ".out"
    r = c.harness("shortvec-run", "--in", f, "--out", g, "--each", each, cases=f)
    rows, rejected, mine = history.judge(c, "ShortVecTrace", TRACE, g, c.pid, what, "shortvec", keep=("n", "isz", "al", "drops"), chunk=chunk)
    if len(c.samples) < 4:
        with open(g) as fh:
            for i, l in enumerate(fh):
                if i == rows // 3:
                    c.samples.append({"from": what, "history": json.loads(l)})
    c.note("%s: %d histories, %d runs on the code, %d events, %d rejected" % (what, r["cases"], rows, r["events"], rejected))


def enumerated(c, n, cap, steps, each):
    out = c.tlc("ShortVecMC", MC % (n, cap, steps), what="the vector as built follows ShortVec (inline size up to %d, capacities up to %d, %d operations)" % (n, cap, steps))
    f = c.path("sv-%d" % steps)
    history.collect(c, out, f)
    replay_cases(c, f, "all histories of %d operations" % steps, each)


def simulated(c, num, n, cap, steps, each):
    out = c.tlc("ShortVecMC", MC % (n, cap, steps), simulate=num, depth=steps + 2)
    f = c.path("svs-%d" % steps)
    k = history.collect(c, out, f)
    replay_cases(c, f, "random histories of the specification, %d operations" % steps, each)


SIZES = [0, 0, 1, 2, 3, 4, 5, 8, 16, 33, 65, 300]


def recorded(c, num, seed, lo, hi, each, chunk):
    rnd = random.Random(seed)
    f = c.path("svr-%d-%d" % (seed, hi))
    with open(f, "w") as w:
        for _ in range(num):
            n = rnd.choice(SIZES[:10] * 3 + SIZES)
            cmds = [{"op": "new", "n": rnd.choice([0, 0, n, n + 1, rnd.randint(0, 2 * n + 3)]), "plain": rnd.random() < 0.5}]
            size = 0
            # each history has its own taste
            weight = {k: rnd.choice([0, 1, 1, 3]) * x for k, x in
                      [("push", 6), ("pop", 3), ("reserve", 1), ("exact", 1), ("set", 1), ("move", 1), ("take", 0.3), ("huge", 0.4), ("some", 0.5)]}
            weight["push"] = max(weight["push"], 2)
            for _ in range(rnd.randint(lo, hi)):
                k = rnd.choices(list(weight), list(weight.values()))[0]
                if k == "push":
                    size += 1
                    cmds.append({"op": k})
                elif k == "pop":
                    size = max(0, size - 1)
                    cmds.append({"op": k})
                elif k in ("reserve", "exact"):
                    cmds.append({"op": k, "n": rnd.choice([0, n, n + 1, size, size + 1, size + rnd.randint(0, 5), 2 * size + 1, max(0, size - 1)])})
                elif k == "set" and size:
                    cmds.append({"op": "set", "i": rnd.choice([1, size, rnd.randint(1, size)])})
                elif k == "huge":
                    cmds.append({"op": "huge", "way": rnd.randint(0, 5)})
                elif k == "some":          # to where it turns: full, one more, empty
                    to = rnd.choice([0, n, n + 1, max(0, n - 1), size + 3])
                    if to > size and to - size < 40:
                        cmds.append({"op": "pushes", "n": to - size})
                        size = to
                    elif to < size:
                        cmds.append({"op": "pops", "n": size - to + (to == 0)})
                        size = to
                elif k in ("move", "take"):
                    if k == "take":
                        size = 0
                    cmds.append({"op": k})
            cmds.append({"op": "drop"})
            w.write(json.dumps({"n": n, "cmds": cmds}) + "\n")
    replay_cases(c, f, "random recorded histories of up to %d operations" % hi, each, chunk)


def bulk(c, num, seed, top, each, chunk):
    """many items: sizes around powers of two and around the inline space"""
    rnd = random.Random(seed)
    f = c.path("svb-%d-%d" % (seed, top))
    with open(f, "w") as w:
        for _ in range(num):
            n = rnd.choice(SIZES)
            near = [x for x in [n, n + 1, 2 * n] + [2 ** k + d for k in (range(5, 13) if top < 9000 else range(13, 17)) for d in (-1, 0, 1)] if x <= top]
            cmds, size = [{"op": "new", "n": rnd.choice([0, 0, n, rnd.choice(near)]), "plain": rnd.random() < 0.5}], 0
            if top > 65536 and rnd.random() < 0.7:
                size = rnd.choice([65535, 65536, 65537, top])
                cmds.append({"op": "pushes", "n": size})
            for _ in range(rnd.randint(2, 7)):
                k = rnd.choice(["up", "up", "up", "down", "exact", "reserve", "move", "take", "push", "pop", "set"])
                to = rnd.choice(near + [rnd.randint(0, top)])
                if k == "up" and to > size:
                    cmds.append({"op": "pushes", "n": to - size})
                    size = to
                elif k == "down":
                    by = rnd.choice([size, size + 1, rnd.randint(0, size), max(0, size - n), max(0, size - n - 1)])
                    cmds.append({"op": "pops", "n": by})
                    size = max(0, size - by)
                elif k in ("exact", "reserve"):
                    cmds.append({"op": k, "n": rnd.choice([size + 1, to, 2 * size + 1])})
                elif k in ("push", "pop", "move", "take"):
                    cmds.append({"op": k})
                    size = 0 if k == "take" else size + 1 if k == "push" else max(0, size - 1) if k == "pop" else size
                elif k == "set" and size:
                    cmds.append({"op": "set", "i": rnd.choice([1, size, rnd.randint(1, size)])})
            cmds.append({"op": "drop"})
            w.write(json.dumps({"n": n, "cmds": cmds}) + "\n")
    replay_cases(c, f, "histories of up to %d items" % top, each, chunk)


def turns(c, sizes, tops, each, chunk):
    """grows far, goes back to about the inline space, and goes on from there"""
    f = c.path("svt-%d" % len(tops))
    with open(f, "w") as w:
        for n in sizes:
            for top in sorted({t(n) for t in tops} - {0}):
                for to in sorted({0, max(0, n - 1), n, n + 1}):
                    if to >= top:
                        continue
                    for res in (0, 1):
                        cmds = [{"op": "new", "n": 0, "plain": True}] + ([{"op": "exact", "n": top}] if res else [])
                        cmds += [{"op": "pushes", "n": top}, {"op": "pops", "n": top - to}, {"op": "pushes", "n": 2},
                                 {"op": "pops", "n": 3}, {"op": "pushes", "n": n + 2}, {"op": "move"}, {"op": "pops", "n": n + 9},
                                 {"op": "push"}, {"op": "drop"}]
                        w.write(json.dumps({"n": n, "cmds": cmds}) + "\n")
    replay_cases(c, f, "growing and going back", each, chunk)


GROW = [lambda n: n + 1, lambda n: 2 * n + 1, lambda n: 5 * n + 1, lambda n: 17 * n + 1, lambda n: 100, lambda n: 260]


def run(c):
    if c.quick:
        c.parallel([lambda: turns(c, [0, 1, 2, 3, 4, 5, 8, 16, 33], GROW, 2, 200),
                    lambda: enumerated(c, 2, 3, 5, 1),
                    lambda: simulated(c, 300, 4, 9, 25, 3),
                    lambda: recorded(c, 2000, c.seed, 1, 30, 2, 1000),
                    lambda: recorded(c, 150, c.seed + 1, 60, 250, 2, 100),
                    lambda: bulk(c, 90, c.seed + 2, 2100, 3, 70),
                    lambda: bulk(c, 6, c.seed + 3, 70000, 2, 3)])
    else:
        turns(c, sorted(set(SIZES)), GROW + [lambda n: 33 * n + 1, lambda n: 65 * n + 1, lambda n: 1100, lambda n: 4200], 5, 100)
        enumerated(c, 2, 3, 6, 2)
        enumerated(c, 3, 4, 5, 9)
        for k in range(10):
            c.parallel([lambda: simulated(c, 1500, 5, 12, 40, 5),
                        lambda: recorded(c, 6000, c.seed * 100 + k, 1, 40, 5, 5000),
                        lambda: recorded(c, 600, c.seed * 100 + k, 100, 400, 5, 300),
                        lambda: bulk(c, 400, c.seed * 100 + k, 4200, 5, 100),
                        lambda: bulk(c, 20, c.seed * 100 + k, 70000, 4, 3)])


def replay(c, d):
    f = c.path("one")
    k = d["case"]
    with open(f, "w") as w:
        w.write(json.dumps({x: k[x] for x in ("n", "cmds", "item") if x in k}) + "\n")
    replay_cases(c, f, "replayed", 9)
