"""C17, C18: the default sequence, filled while it is read, against DefSeq.tla."""
import itertools, json, random, re
import history

IMPL = """SPECIFICATION Spec
CONSTANTS EndFirst = %s Keep = %s WaitFirst = %s Asleep = %s Sizes = {%s} MaxSegs = %d Skips = {%s} Budget = %d
INVARIANTS Kept AtRest Restful Front
"""
TRACE = """SPECIFICATION TraceSpec
INVARIANTS Report
CHECK_DEADLOCK FALSE
"""
BROKEN = r"Invariant \w+ is violated|Deadlock reached"
SEND, DONE, FIN = {"o": "send"}, {"o": "done"}, {"o": "finish"}


def A(n):
    return {"o": "append", "n": n}


def R(*p):
    return {"o": "read", "p": list(p)}


def V(n, p=0):
    return {"o": "adv", "n": n, "p": p}


def model(c, sizes, segs, skips, budget):
    c.tlc("DefSeqImpl", IMPL % ("TRUE", "TRUE", "TRUE", "TRUE", sizes, segs, skips, budget),
          what="the default sequence as built keeps its promises (up to %d segments of sizes %s, skips of %s, %d requests)" % (segs, sizes, skips, budget))


def controls(c):
    """the model tells the sequence as first found, one that starts to wait too late, and one that never rests, from this one"""
    for i in range(4):
        a = tuple("FALSE" if k == i else "TRUE" for k in range(4))
        out = c.tlc("DefSeqImpl", IMPL % (a + ("0, 1, 2", 2, "0, 1, 3", 2)), expect_error=BROKEN, small=True)
        if not any(re.search(BROKEN, l) for l in out):
            raise RuntimeError("the model no longer tells broken sequences")


def producers(n, sizes):
    out = []
    for k in range(n + 1):
        for ks in itertools.product(sizes, repeat=k):
            for ss in itertools.product([0, 1], repeat=k):
                p = []
                for x, s in zip(ks, ss):
                    p += [A(x)] + [SEND] * s
                out += [p + [DONE, SEND], p + [FIN, DONE, SEND], p + [SEND]]
                if k:
                    out.append(p + [SEND, DONE, SEND])
    seen, r = set(), []
    for p in out:
        t = json.dumps(p)
        if t not in seen:
            seen.add(t)
            r.append(p)
    return r


def case(p, r, before=(), noise=0):
    return {"before": list(before), "producer": p, "reader": r, "noise": noise}


def judge_file(c, programs, what, *args):
    f = c.path("ds-%d" % (abs(hash(what)) % 10**6))
    with open(f, "w") as w:
        for p in programs:
            w.write(json.dumps(p) + "\n")
    g = f + ".out"
    r = c.harness("defseq-run", "--in", f, "--out", g, *args, cases=f, limit=120)
    rows, rejected, mine = history.judge(c, "DefSeqTrace", TRACE, g, c.pid, what, "defseq", chunk=8000)
    if len(c.samples) < 4 and rows:
        with open(g) as fh:
            for i, l in enumerate(fh):
                if i == rows // 2:
                    c.samples.append({"from": what, "history": json.loads(l)})
    c.note("%s: %d programs, %d schedules run on the code (%d programs completely), %d distinct histories, %d events, %d rejected" % (
        what, r["cases"], r["runs"], r["complete"], rows, r["events"], rejected))


def readers17():
    return [[R(0, 0, 0, 0)], [R(1, 2, 0, 1, 0, 0)], [R(0), R(0, 0, 0)]]


def readers18(top):
    out = [[V(n), R(0, 0, 0)] for n in range(top + 1)]
    out += [[V(1), V(n), R(0, 0, 0)] for n in range(1, 4)]
    out += [[R(0), V(n), R(0, 0)] for n in range(1, 4)]
    out += [[V(3, k)] for k in (1, 2, 3)]
    return out


def families(c, n, sizes, bound, top):
    rs = readers17() if c.pid == "C17" else readers18(top)
    ps = [case(p, r) for p in producers(n, sizes) for r in rs]
    judge_file(c, ps, "all producers of up to %d segments, up to %d preemptions" % (n, bound), "--bound", bound)
    # some of it is there before, and others signal without reason
    ps = [case(p, r, [A(2), A(1)], z) for p in producers(1, sizes) for r in rs for z in (0, 1)]
    judge_file(c, ps, "with segments there before, and signals without reason, up to %d preemptions" % (bound - 1), "--bound", bound - 1)


def rand(c, n, seed, runs):
    rnd = random.Random(seed)
    out = []
    for _ in range(n):
        # each program has its own taste
        sizes = rnd.choice([[0, 1, 1, 2, 3, 5], [1], [0, 0, 1], [2, 7], [0, 1, 40], [3, 4, 5, 17, 33]])
        signals, vain, skips = rnd.choice([0.2, 0.5, 0.9]), rnd.choice([[0], [0, 0, 0, 1, 2, 3], [0, 1]]), rnd.choice([0.1, 0.5, 0.9])
        if c.pid == "C17":
            skips /= 2
        p = []
        for _ in range(rnd.randint(0, rnd.choice([4, 8, 16]))):
            p.append(A(rnd.choice(sizes)))
            if rnd.random() < signals:
                p.append(SEND)
        p += rnd.choice([[DONE, SEND], [FIN, DONE, SEND], [FIN, SEND, DONE, SEND], [SEND]])
        r = []
        for _ in range(rnd.randint(1, rnd.choice([4, 10]))):
            if rnd.random() < skips:
                r.append(V(rnd.choice([0, 1, 2, 3, 5, 8, max(sizes), max(sizes) + 1, 2 * max(sizes)])))
            else:
                r.append(R(*[rnd.choice(vain) for _ in range(rnd.randint(1, rnd.choice([4, 8])))]))
        r.append(R(*[0] * rnd.randint(1, 6)))
        out.append(case(p, r, [A(rnd.choice(sizes)) for _ in range(rnd.choice([0, 0, 1, 2, 6]))], rnd.choice([0, 0, 1, 3])))
    judge_file(c, out, "random programs (seed %d), %d random schedules each" % (seed, runs), "--random", seed, "--runs", runs, "--bound", 1000)


def many(c, n, seed, runs):
    """long streams: many segments, large ones, long skips, many reads"""
    rnd = random.Random(seed)
    out = []
    for _ in range(n):
        k, sizes = rnd.choice([20, 65, 130, 260]), rnd.choice([[0, 1, 2], [1], [0, 3], [1, 9], [30]])
        if rnd.random() < 0.2:
            k, sizes = 4, [100, 257, 300]
        before = [A(rnd.choice(sizes)) for _ in range(rnd.choice([0, k // 2, k]))]
        p = [x for _ in range(k - len(before) + 1) for x in ([A(rnd.choice(sizes)), SEND] if rnd.random() < 0.8 else [A(rnd.choice(sizes))])]
        p += rnd.choice([[DONE, SEND], [FIN, DONE, SEND], [SEND]])
        total, r = sum(x["n"] for x in before + p if x["o"] == "append"), []
        for _ in range(rnd.randint(0, 4)):
            r += [V(rnd.choice([1, total // 3, total // 5, rnd.randint(0, total + 2)])), R(*[0] * rnd.choice([1, 2, k // 2]))]
        r.append(R(*[0] * (k + 3)))
        out.append(case(p, r if rnd.random() < 0.7 or c.pid == "C18" else r[-1:], before, rnd.choice([0, 2])))
    judge_file(c, out, "long streams (seed %d), %d random schedules each" % (seed, runs), "--random", seed, "--runs", runs, "--bound", 1000)


def scaled(c, n, seed, runs):
    """every item stands for thousands"""
    rnd = random.Random(seed)
    out = []
    for _ in range(n):
        k, sizes = rnd.choice([1, 2, 4]), rnd.choice([[0, 1, 2], [1], [1, 3]])
        before = [A(rnd.choice(sizes)) for _ in range(rnd.choice([0, k // 2, k]))]
        p = [x for _ in range(k - len(before) + 1) for x in ([A(rnd.choice(sizes)), SEND] if rnd.random() < 0.8 else [A(rnd.choice(sizes))])]
        p += rnd.choice([[DONE, SEND], [FIN, DONE, SEND], [SEND]])
        r = []
        for _ in range(rnd.randint(0, 2)):
            r += [V(rnd.randint(0, 4)), R(*[0] * rnd.choice([1, 2]))]
        r.append(R(*[0] * (k + 3)))
        out.append(dict(case(p, r if c.pid == "C18" or rnd.random() < 0.5 else r[-1:], before), unit=rnd.choice([4096, 32768, 65535, 65536, 65537])))
    judge_file(c, out, "streams of blocks of 4096 to 65537 items (seed %d), %d random schedules each" % (seed, runs), "--random", seed, "--runs", runs, "--bound", 1000)


def run(c):
    if c.quick:
        c.parallel([lambda: families(c, 2, [0, 1, 2], 2, 5), lambda: controls(c),
                    lambda: model(c, "0, 1, 2", 2, "0, 1, 3", 3),
                    lambda: rand(c, 200, c.seed, 40), lambda: many(c, 40, c.seed, 6),
                    lambda: scaled(c, 25, c.seed, 3)])
    else:
        c.parallel([lambda: families(c, 3, [0, 1, 2], 2, 7), lambda: families(c, 2, [0, 1, 2, 3], 3, 7), lambda: controls(c),
                    lambda: model(c, "0, 1, 2", 3, "0, 1, 3, 4", 4)] +
                   [lambda k=k: rand(c, 300, c.seed * 100 + k, 150) for k in range(20)] +
                   [lambda k=k: many(c, 100, c.seed * 100 + k, 20) for k in range(5)] +
                   [lambda k=k: scaled(c, 60, c.seed * 100 + k, 5) for k in range(5)])


def replay(c, d):
    judge_file(c, [d["case"]], "replayed", "--bound", 3)
