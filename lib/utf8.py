"""C16 (and C15 through the validating layer): Utf8Validator against Utf8.tla."""
import json, random
import history

MC = """SPECIFICATION Spec
CONSTANTS Mode = "%s" Alphabet = {%s} MaxChunk = %d MaxLoads = %d MaxBytes = %d
INVARIANTS Refines CarryIsRest CarryShort Emit
CHECK_DEADLOCK FALSE
"""
TRACE = """SPECIFICATION TraceSpec
INVARIANTS Report
CHECK_DEADLOCK FALSE
"""
# every byte class of table 3-7, with both ends of each range
FULL = [0x00, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xEC, 0xED, 0xEE, 0xEF,
        0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xFF]
SMALL = [0x41, 0x80, 0x90, 0xA0, 0xBF, 0xC1, 0xC3, 0xE0, 0xE2, 0xED, 0xF0, 0xF1, 0xF4, 0xFF]


def alpha(a):
    return ", ".join(map(str, a))


def replay_cases(c, f, what, chunk=10000):
    g = f + ".out"
    r = c.harness("utf8-run", "--in", f, "--out", g, cases=f)
    rows, rejected, mine = history.judge(c, "Utf8Trace", TRACE, g, c.pid, what, "utf8", chunk=chunk)
    if len(c.samples) < 4:
        with open(g) as fh:
            for i, l in enumerate(fh):
                if i == rows // 3:
                    c.samples.append({"from": what, "history": json.loads(l)})
    c.note("%s: %d histories run on the code, %d events, %d rejected, %d of them for %s" % (what, rows, r["events"], rejected, mine, c.pid))


def carriers(rnd):
    """one of: a control of our own, the generic sequence"""
    if rnd.random() < 0.5:
        return {"ctl": "own", "extra": rnd.choice([0, 0, 1, 5])}
    return {"ctl": "gen", "strat": {"k": rnd.choice(["exact", "plus", "mul", "atleast"]), "a": rnd.randint(1, 9)}}


def enumerated(c, alphabet, maxchunk, loads, nbytes, watch):
    out = c.tlc("Utf8Impl", MC % ("hist", alpha(alphabet), maxchunk, loads, nbytes))
    f = c.path("utf8-%d-%d-%d-%d" % (len(alphabet), maxchunk, loads, nbytes))
    rnd = random.Random(c.seed)

    def extra(case):
        case.update(carriers(rnd))
        case["watch"] = watch
        return case
    history.collect(c, out, f, extra)
    replay_cases(c, f, "streams of the specification (%d bytes values, up to %d bytes, %d loads)" % (len(alphabet), nbytes, loads))


CHARS = ["a", "\x7f", "\u0080", "é", "߿", "\u0800", "あ", "\ud7ff", "\ue000", "\uffff", "\U00010000", "😀", "\U0010ffff"]
JUNK = [b"\x80", b"\xbf", b"\xc0\x80", b"\xc1\xbf", b"\xe0\x80\x80", b"\xe0\x9f\xbf", b"\xed\xa0\x80", b"\xed\xbf\xbf", b"\xf0\x80\x80\x80",
        b"\xf0\x8f\xbf\xbf", b"\xf4\x90\x80\x80", b"\xf5\x80\x80\x80", b"\xff", b"\xfe", b"\xc3\x28", b"\xe2\x82\x28", b"\xf0\x9f\x98\x28", b"\xf1\x80\xc3"]


def stream(rnd):
    out = b""
    for _ in range(rnd.choice([0, 1, 2, 3, 5, 9, 20])):
        out += rnd.choice(CHARS).encode("utf-8")
    x = rnd.random()
    if x < 0.45:
        return out
    if x < 0.6:
        ch = rnd.choice(CHARS[2:]).encode("utf-8")
        return out + ch[:rnd.randint(1, len(ch) - 1)]
    if x < 0.8:
        j = rnd.choice(JUNK)
    else:
        j = bytes(rnd.choice([0x41, 0x80, 0x90, 0xA0, 0xBF, 0xC2, 0xE0, 0xE2, 0xED, 0xF0, 0xF4, rnd.randrange(256)]) for _ in range(rnd.randint(1, 4)))
    k = rnd.randint(0, len(out))
    tail = out[k:] if rnd.random() < 0.7 else b""
    return out[:k] + j + tail


def case_of(rnd, data):
    cmds, i = [], 0
    mean = rnd.choice([1, 2, 4, 30])
    while i < len(data) or rnd.random() < 0.1:
        x = rnd.random()
        if x < 0.08:
            cmds.append({"out": "ctl", "wait": rnd.choice([0, 1])})
        elif x < 0.2:
            cmds.append({"out": rnd.choice(["cancel", "abandon"]), "bytes": list(data[i:i + rnd.randint(0, 4)]), "wait": rnd.choice([0, 1])})
            if cmds[-1]["out"] == "abandon":
                cmds[-1]["late"] = rnd.choice(["", "adv", "cancel", "fin", "ctl"])
        else:
            k = rnd.choice([0, rnd.randint(1, mean), rnd.randint(1, mean)])
            cmds.append({"out": "adv", "bytes": list(data[i:i + k]), "n": rnd.choice([0, 0, 1, 7]), "wait": rnd.choice([0, 0, 1]),
                         "junk": rnd.choice([0, 0, 2]), "force": rnd.random() < 0.2})
            i += k
    cmds.append({"out": "fin", "wait": rnd.choice([0, 1])})
    r = {"cmds": cmds, "watch": rnd.random() < 0.3}
    r.update(carriers(rnd))
    return r


def recorded(c, n, seed):
    rnd = random.Random(seed)
    f = c.path("utf8-rec-%d" % seed)
    with open(f, "w") as w:
        for _ in range(n):
            w.write(json.dumps(case_of(rnd, stream(rnd))) + "\n")
    replay_cases(c, f, "random recorded streams")


SIZES = [60, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 400, 511, 512, 513, 900, 1023, 1024, 1025, 2000]


def bulk(c, n, seed):
    """long streams in large pieces"""
    rnd = random.Random(seed * 3 + 1)
    f = c.path("utf8-bulk-%d" % seed)
    with open(f, "w") as w:
        for _ in range(n):
            size = rnd.choice(SIZES)
            chars = rnd.sample(CHARS, rnd.choice([1, 2, len(CHARS)])) + (["a"] * 3 if rnd.random() < 0.5 else [])
            out = b""
            while len(out) < size:
                out += (rnd.choice(chars) * rnd.choice([1, 1, 5, 40])).encode("utf-8")
            if rnd.random() < 0.3:
                k = rnd.randint(0, len(out))
                out = out[:k] + rnd.choice(JUNK) + out[k:]
            elif rnd.random() < 0.3:
                out = out[:size]
            cmds, i = [], 0
            while i < len(out):
                k = rnd.choice([0, rnd.randint(1, 5), rnd.choice(SIZES), rnd.choice(SIZES) + rnd.randint(-2, 2)])
                x = rnd.random()
                if x < 0.1:
                    cmds.append({"out": rnd.choice(["ctl", "cancel", "abandon"]), "bytes": list(out[i:i + 3]), "late": rnd.choice(["", "adv", "cancel", "fin", "ctl"])})
                    continue
                cmds.append({"out": "adv", "bytes": list(out[i:i + k]), "n": rnd.choice([0, 0, 1, 7]), "wait": rnd.choice([0, 0, 1]),
                             "junk": rnd.choice([0, 0, 2]), "force": rnd.random() < 0.2})
                i += k
            cmds.append({"out": "fin"})
            r = {"cmds": cmds, "watch": rnd.random() < 0.5, "brief": True}
            r.update(carriers(rnd))
            w.write(json.dumps(r) + "\n")
    replay_cases(c, f, "long streams in large pieces", chunk=150)


def scaled(c, n, seed):
    """every 'A' stands for thousands of bytes"""
    rnd = random.Random(seed * 11 + 5)
    f = c.path("utf8-scaled-%d" % seed)
    with open(f, "w") as w:
        for _ in range(n):
            out = b""
            for _ in range(rnd.choice([2, 3, 5, 8])):
                out += rnd.choice([b"A", b"A", rnd.choice(CHARS[2:]).encode("utf-8"), b"~"])
            x = rnd.random()
            if x < 0.25:
                k = rnd.randint(0, len(out))
                out = out[:k] + rnd.choice(JUNK) + out[k:]
            elif x < 0.4:
                out = out[:-1]
            r = dict(case_of(rnd, out), unit=rnd.choice([4095, 4096, 8192, 21845, 32767, 32768, 65533, 65535, 65536, 65537]), watch=False)
            w.write(json.dumps(r) + "\n")
    replay_cases(c, f, "streams in which every 'A' stands for 4095 to 65537 bytes")


def pairs(c, leads, seed):
    """every lead byte with every second byte (and both completions), cut at random"""
    rnd = random.Random(seed)
    f = c.path("utf8-pairs-%d" % seed)
    with open(f, "w") as w:
        for a in leads:
            for b in range(256):
                tail = rnd.choice([[0x80, 0x80, 0x41], [0x80, 0x41, 0x42], [0xBF, 0xBF, 0x7A], [0x41, 0x41, 0x41]])
                w.write(json.dumps(case_of(rnd, bytes([0x61, a, b] + tail))) + "\n")
    replay_cases(c, f, "every second byte after %d lead bytes" % len(leads))


def layer(c):
    """the writers of the validating layer (C15)"""
    return [lambda: enumerated(c, SMALL[:10], 2, 2, 3, True),
            lambda: recorded(c, 1500 if c.quick else 20000, c.seed * 7),
            lambda: bulk(c, 150 if c.quick else 1500, c.seed * 7)]


def run(c):
    jobs = [lambda: c.tlc("Utf8Impl", MC % ("check", alpha(SMALL if c.quick else FULL), 2, 0, 0), what="validator refines Utf8 for streams of any length")]
    if c.quick:
        jobs += [lambda: enumerated(c, SMALL, 3, 2, 3, False),
                 lambda: enumerated(c, [0x41, 0x80, 0xBF, 0xC3, 0xE2, 0xF0, 0x90], 2, 3, 4, False),
                 lambda: recorded(c, 6000, c.seed),
                 lambda: bulk(c, 400, c.seed),
                 lambda: scaled(c, 150, c.seed),
                 lambda: pairs(c, [0xC1, 0xC2, 0xE0, 0xE1, 0xED, 0xEF, 0xF0, 0xF4, 0xF5], c.seed)]
    else:
        jobs += [lambda: c.tlc("Utf8Impl", MC % ("check", alpha(SMALL[:9]), 4, 0, 0), what="validator refines Utf8, chunks of up to four bytes"),
                 lambda: enumerated(c, FULL, 3, 2, 3, False),
                 lambda: enumerated(c, SMALL, 4, 2, 4, False)]
        for k in range(15):
            jobs.append(lambda k=k: recorded(c, 20000, c.seed * 1000 + k))
            jobs.append(lambda k=k: bulk(c, 2000, c.seed * 1000 + k))
            jobs.append(lambda k=k: scaled(c, 500, c.seed * 1000 + k))
        jobs.append(lambda: pairs(c, range(256), c.seed))
    c.parallel(jobs)


def replay(c, d):
    f = c.path("one")
    with open(f, "w") as w:
        w.write(json.dumps(d["case"]) + "\n")
    replay_cases(c, f, "replayed")
