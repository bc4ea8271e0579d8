"""C09, C10: in-memory inputs, plain and measured, against MemSeq.tla."""
import json, random
import history

MC = """SPECIFICATION Spec
CONSTANTS MaxLen = %d Steps = %d Past = %d
INVARIANTS Follows AnchorsMatch Emit
CHECK_DEADLOCK FALSE
"""
TRACE = """SPECIFICATION TraceSpec
INVARIANTS Report
CHECK_DEADLOCK FALSE
"""
CARRIERS = {"C09": "str,u8,u64,string,tuple,unit", "C10": "mstr,mu8,mstring,munit,mu64"}


def replay_cases(c, f, what, carriers=None):
    g = f + ".out"
    r = c.harness("memseq-run", "--in", f, "--out", g, "--seed", c.seed, "--carriers", carriers or CARRIERS[c.pid], cases=f)
    rows, rejected, mine = history.judge(c, "MemSeqTrace", TRACE, g, c.pid, what, "memseq", keep=("full", "start", "measured", "size", "brief"), chunk=15000)
    if len(c.samples) < 4:
        with open(g) as fh:
            for i, l in enumerate(fh):
                if i == rows // 3:
                    c.samples.append({"from": what, "history": json.loads(l)})
    c.note("%s: %d histories, %d runs on the code (%s), %d events, %d rejected" % (what, r["cases"], rows, carriers or CARRIERS[c.pid], r["events"], rejected))


def enumerated(c, maxlen, steps, past):
    out = c.tlc("MemSeqMC", MC % (maxlen, steps, past), what="operations follow MemSeq (content up to %d, %d operations)" % (maxlen, steps))
    f = c.path("mem-%d-%d" % (maxlen, steps))
    history.collect(c, out, f)
    replay_cases(c, f, "histories of the specification")


def history_of(rnd, size, top):
    # each history has its own taste
    ws = [rnd.choice([0.3, 1, 3]) * x for x in (35, 10, 15, 20, 20, 12)]
    cmds, pos, anchors = [], 0, []
    for _ in range(rnd.randint(1, top)):
        n = rnd.choice([0, 1, 1, 2, 3, rnd.randint(0, size), max(0, size - pos), max(0, size - pos - 1), size + rnd.randint(0, 3)])
        if rnd.random() < 0.04:
            n = 10000000 + rnd.randrange(8)     # as good as without end
        ok = [i for i, a in enumerate(anchors) if a <= pos]
        k = rnd.choices(["adv", "read", "peek", "anchor", "rewind", "split"], ws)[0]
        if k == "adv":
            pos = min(size, pos + n)
        if k in ("adv", "peek"):
            cmds.append({"op": k, "n": n})
        elif k == "split":
            cmds.append({"op": k, "n": n, "inside": rnd.random() < 0.3})
        elif k == "rewind" and ok:
            i = rnd.choice(ok)
            cmds.append({"op": "rewind", "i": i + 1})
            pos = anchors.pop(i)
        elif k == "read":
            cmds.append({"op": "read"})
        else:
            cmds.append({"op": "anchor"})
            anchors.append(pos)
    return cmds


def recorded(c, n, seed):
    rnd = random.Random(seed)
    f = c.path("mem-rec-%d" % seed)
    with open(f, "w") as w:
        for _ in range(n):
            size = rnd.choice([0, 1, 3, 8, 40]) if rnd.random() > 0.02 else rnd.choice([127, 128, 255, 256, 257, 600])
            full = [rnd.randint(1, rnd.choice([1, 2, 11])) for _ in range(size)]
            w.write(json.dumps({"full": full, "cmds": history_of(rnd, size, rnd.choice([5, 15, 40]))}) + "\n")
    replay_cases(c, f, "random recorded histories")


def long(c, n, seed):
    rnd = random.Random(seed)
    f = c.path("mem-long-%d" % seed)
    with open(f, "w") as w:
        for _ in range(n):
            size = rnd.choice([2 ** k + d for k in range(8, 17) for d in (-1, 0, 1)] + [70000, 131072, 262145] * 2 + [rnd.randint(100, 30000) for _ in range(9)])
            w.write(json.dumps({"gen": [size, rnd.choice([1, 2, 11]), rnd.randrange(2 ** 32)], "cmds": history_of(rnd, size, 12)}) + "\n")
    replay_cases(c, f, "random histories of long contents")


def run(c):
    if c.quick:
        c.parallel([lambda: enumerated(c, 2, 4, 1), lambda: recorded(c, 3000, c.seed), lambda: long(c, 100, c.seed)])
    else:
        c.parallel([lambda: enumerated(c, 3, 4, 2), lambda: enumerated(c, 2, 5, 1)] +
                   [lambda k=k: recorded(c, 8000, c.seed * 1000 + k) for k in range(15)] +
                   [lambda k=k: long(c, 400, c.seed * 1000 + k) for k in range(5)])


def replay(c, d):
    f = c.path("one")
    k = d["case"]
    with open(f, "w") as w:
        w.write(json.dumps({"full": k["units"], "cmds": k["cmds"], "seed": k["seed"], **({"gen": k["gen"]} if k.get("gen") else {})}) + "\n")
    replay_cases(c, f, "replayed", k["carrier"])
