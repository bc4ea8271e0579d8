"""Shared by the modules that replay histories: a specification emits CASE lines, the harness runs them and
writes {case fields, ev: [...]} per line, a trace specification prints REJECT {line, at, bad, event}."""
import concurrent.futures, json, os, re, tempfile
from core import ToolError

# TLC cannot even make sense of an event: it speaks of things that do not exist in the state
SENSELESS = r"Attempted to|The error occurred when TLC was evaluating|TLC encountered|CHOOSE x \\in S"


def collect(c, lines, path, extra=None):
    n, seen = 0, set()
    with open(path, "w") as w:
        for t in c.printed(lines, "CASE"):
            if t in seen:
                continue
            seen.add(t)
            if extra:
                t = json.dumps(extra(json.loads(t)))
            w.write(t + "\n")
            n += 1
    return n


def size(r):
    return len(json.dumps({k: v for k, v in r.items() if k != "ev"}))


def judge(c, module, cfg, outfile, label, what, kind, keep=(), chunk=6000, limit=3):
    """label: count only rejections carrying it (None: all); keep: fields TLC needs beside ev. Equal recordings are judged once."""
    rows = open(outfile).read().splitlines()
    seen, part, parts = set(), [], []
    for k, l in enumerate(rows):
        r = json.loads(l)
        t = json.dumps({x: r[x] for x in ("ev",) + tuple(keep)})
        h = hash(t)
        if h in seen:
            continue
        seen.add(h)
        part.append((k, t))
        if len(part) == chunk:
            parts.append(part)
            part = []
    if part:
        parts.append(part)

    def one(part):
        try:
            return run(part)
        except ToolError as e:
            if not re.search(SENSELESS, str(e)):
                raise
            if len(part) == 1:
                k = part[0][0]
                ev = json.loads(rows[k])["ev"]
                return [(rows[k], {"at": 0, "bad": [label], "event": {"e": "senseless", "what": str(e)[-700:], "events": len(ev)}})]
        half = len(part) // 2
        return one(part[:half]) or one(part[half:])

    def run(part):
        fd, f = tempfile.mkstemp(prefix="judge-", dir=c.work)
        with os.fdopen(fd, "w") as w:
            w.write("".join(t + "\n" for _, t in part))
        out = c.tlc(module, cfg, env={"CASES": f}, small=True)
        os.unlink(f)
        return [(rows[part[m["line"] - 1][0]], m) for m in map(json.loads, c.printed(out, "REJECT"))]
    total, bad = 0, []
    with concurrent.futures.ThreadPoolExecutor(4) as pool:
        for found in pool.map(one, parts):
            for l, m in found:
                total += 1
                if label is None or label in m["bad"]:
                    bad.append((json.loads(l), m))
    bad.sort(key=lambda x: size(x[0]))
    for r, m in bad[:limit]:
        case = {k: v for k, v in r.items() if k not in ("ev", "case")}
        c.violation("%s: %s: event %d is not allowed (%s): %s" % (
            what, json.dumps(case)[:1500], m["at"], ",".join(m["bad"]), json.dumps(m["event"])[:1500]),
            {"kind": kind, "case": case, "at": m["at"], "bad": m["bad"], "event": m["event"], "ev": r["ev"]})
    c.traces += len(rows)
    return len(rows), total, len(bad)
