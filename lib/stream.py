"""C26: parsers on a default sequence over a generic one, loaded while they run, against the meaning in PegSem."""
import json, random, re
import history, peg

IMPL = """SPECIFICATION SSpec
CONSTANTS MaxLen = %d MaxSegs = %d EmptyIsEnd = %s NowIsEnd = %s ForgetRest = %s
INVARIANTS Right AtRest
CHECK_DEADLOCK FALSE
"""
TRACE = """SPECIFICATION TraceSpec
INVARIANTS Report Moves
CHECK_DEADLOCK FALSE
"""
BROKEN = r"Invariant \w+ is violated"
SEND, DONE, FIN, COMMIT = {"o": "send"}, {"o": "done"}, {"o": "finish"}, {"o": "commit"}


def model(c, maxlen, segs):
    c.tlc("StreamImpl", IMPL % (maxlen, segs, "FALSE", "FALSE", "FALSE"),
          what="the primitive parsers as built on a sequence that is being filled say what holds of the whole (length up to %d in up to %d segments)" % (maxlen, segs))


def controls(c):
    """the model tells parsers that take an empty segment or a pause for the end, or forget what they have compared"""
    for i in range(3):
        flags = tuple("TRUE" if k == i else "FALSE" for k in range(3))
        out = c.tlc("StreamImpl", IMPL % ((3, 3) + flags), expect_error=BROKEN, small=True)
        if not any(re.search(BROKEN, l) for l in out):
            raise RuntimeError("the model no longer tells broken parsers")


def parts(rnd, n, most=4):
    """n items in some parts, empty ones too"""
    k = rnd.choice([1, 2, 2, 3, 3, most]) if most < 5 else most
    cuts = sorted(rnd.randint(0, n) for _ in range(k - 1))
    return [b - a for a, b in zip([0] + cuts, cuts + [n])]


def program(rnd, codes, tree, most=4, ended=None):
    p, pending = [], False
    on = rnd.choice(["slice", "str"])
    signals, own = rnd.choice([0.3, 0.7, 1.0]), rnd.random() < 0.4
    for k in parts(rnd, len(codes), most):
        if own and rnd.random() < 0.7:
            p.append({"o": "load", "n": k})
            pending = True
            if rnd.random() < 0.3:
                p.append(COMMIT)
                pending = False
        else:
            p.append({"o": "append", "n": k})
            pending = False
        if rnd.random() < signals:
            p.append(SEND)
    if rnd.random() < 0.65 if ended is None else ended:
        if pending and rnd.random() < 0.3:
            p += [COMMIT, SEND]
            pending = False
        p += [FIN, DONE, SEND] if pending else rnd.choice([[FIN, DONE, SEND], [DONE, SEND], [SEND, DONE, SEND]])
        done = True
    else:
        if pending:
            p.append(rnd.choice([COMMIT, FIN]))
        if p[-1:] != [SEND] or rnd.random() < 0.2:
            p.append(SEND)
        done = False
    cut = rnd.choice([0, 0, 0, 1, 2, 3])
    while cut < len(p) and p[cut]["o"] in ("send", "done"):
        cut += 1
    if cut >= len(p):
        cut = 0
    if on == "str":
        # bytes of the next character may come early
        loads = [o for o in p if o["o"] in ("append", "load")]
        for o in loads[:-1]:
            if rnd.random() < 0.5:
                o["b"] = rnd.randint(1, 3)
    strat = rnd.choice([{"k": "exact", "a": 0}, {"k": "plus", "a": 1}, {"k": "plus", "a": 3}, {"k": "mul", "a": 2}, {"k": "least", "a": 4}, {"k": "least", "a": 64}])
    return {"input": codes, "n": tree, "before": p[:cut], "producer": p[cut:], "strat": strat, "done": done,
            "ext": rnd.random() < 0.5, "once": rnd.random() < 0.3, "on": on,
            "chars": rnd.randrange(1 << 30) if rnd.random() < 0.8 else None}


def judge_file(c, programs, what, *args):
    f = c.path("st-%d" % (abs(hash((what, args))) % 10**8))
    with open(f, "w") as w:
        for p in programs:
            w.write(json.dumps(p) + "\n")
    g = f + ".out"
    r = c.harness("stream-run", "--in", f, "--out", g, *args, cases=f, limit=120)
    rows, rejected, mine = history.judge(c, "StreamTrace", TRACE, g, None, what, "stream", keep=("input", "n", "done"))
    if len(c.samples) < 4 and rows:
        with open(g) as fh:
            for i, l in enumerate(fh):
                if i == rows // 2:
                    c.samples.append({"from": what, "outcome": json.loads(l)})
    c.note("%s: %d programs, %d schedules run on the code (%d programs completely), %d distinct outcomes checked by TLC, %d rejected" % (
        what, r["cases"], r["runs"], r["complete"], rows, rejected))


def from_spec(c, maxlen, seed, each, share, bound):
    """small parsers and inputs of the specification, in some divisions, under all schedules"""
    out = c.tlc("PegEnum", peg.ENUM_CFG % ("stream", maxlen, "FALSE"))
    rnd = random.Random(seed)
    cases = sorted(set(c.printed(out, "CASE")))
    ps = []
    for t in cases:
        if rnd.random() < share:
            x = json.loads(t)
            ps += [program(rnd, x["input"], x["cmds"][0]["n"]) for _ in range(each)]
    judge_file(c, ps, "parsers of the specification (%d of %d with their inputs), up to %d preemptions" % (len(ps) // each, len(cases), bound), "--bound", bound)


def rand(c, n, seed, runs):
    f = c.path("gen-stream-%d" % seed)
    rnd, ps = random.Random(seed), []
    for k, fam in enumerate(("all", "recover", "iter", "bin", "prim")):
        c.harness("peg-gen", "--family", fam, "--n", n, "--seed", seed * 10 + k, "--out", f)
        for l in open(f):
            x = json.loads(l)
            if x["cmds"][0]["op"] == "parse":
                ps.append(program(rnd, x["input"], x["cmds"][0]["n"], rnd.choice([4, 4, 4, 8, 12])))
    judge_file(c, ps, "random parsers (seed %d), %d random schedules each" % (seed, runs), "--random", seed, "--runs", runs, "--bound", 1000)


def far(c, n, seed, runs):
    """long patterns and repetitions over many segments"""
    rnd, ps = random.Random(seed), []
    for _ in range(n):
        size = rnd.choice([20, 60, 130, 200, 260, 300, 520] + [1100, 2100][:rnd.random() < 0.3])
        few = rnd.random() < 0.5
        codes = [rnd.randrange(2 if few else 7) for _ in range(size)]
        k = rnd.choice([size, size - 1, size - rnd.randrange(size // 2), size // 2, min(size, 255), min(size, 256)])
        w = codes[:k]
        if rnd.random() < 0.3:
            w[rnd.choice([-1, 0, rnd.randrange(k)])] ^= 1
        atom = {"k": "atom", "w": w, "form": rnd.randrange(6)}
        rep = {"k": "rep", "a": {"k": "any"}}
        tree = rnd.choice([atom, atom, {"k": "join", "a": atom, "b": rep}, {"k": "or", "a": atom, "b": rep}, rep,
                           {"k": "rep", "a": {"k": "atom", "w": [0], "form": 0}},
                           {"k": "join", "a": {"k": "opt", "a": atom}, "b": {"k": "the", "c": codes[0]}}])
        if tree["k"] == "rep" and rnd.random() < 0.6:
            codes = [0] * size
        ps.append(program(rnd, codes, tree, rnd.choice([1, 2, 5, 12, 70, size, size])))
    judge_file(c, ps, "long patterns and repetitions (seed %d), %d random schedules each" % (seed, runs), "--random", seed, "--runs", runs, "--bound", 100000)


def run(c):
    if c.quick:
        c.parallel([lambda: model(c, 3, 4), lambda: controls(c)])
        c.parallel([lambda: from_spec(c, 3, c.seed, 1, 1, 1), lambda: from_spec(c, 3, c.seed + 1, 1, 0.12, 2)] +
                   [lambda k=k: rand(c, 200, c.seed * 100 + k, 20) for k in range(3)] + [lambda: far(c, 200, c.seed, 3)])
    else:
        c.parallel([lambda: model(c, 5, 5), lambda: controls(c)])
        for k in range(6):
            from_spec(c, 3, c.seed * 100 + k, 2, 1, 2)
            from_spec(c, 4, c.seed * 100 + 50 + k, 2, 1, 1)
        c.parallel([lambda k=k: rand(c, 300, c.seed * 100 + k, 100) for k in range(12)])
        c.parallel([lambda k=k: far(c, 150, c.seed * 100 + k, 10) for k in range(6)])


def replay(c, d):
    judge_file(c, [d["case"]], "replayed", "--bound", 2)
    if not c.violations:
        judge_file(c, [d["case"]], "replayed", "--random", 1, "--runs", 2000, "--bound", 1000)
