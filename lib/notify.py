"""C19, C20: the notifier (and the optional future) against Notify.tla and OptionFuture.tla."""
import itertools, json, random, re
import history

IMPL = """SPECIFICATION Spec
CONSTANTS Threads = {%s} Budget = %d MaxWaits = %d HoldLock = %s Recheck = %s Actions = {%s} Tasks = %s Dedup = "%s"
INVARIANTS Kept AtRest
"""
TRACE = """SPECIFICATION TraceSpec
INVARIANTS Report
CHECK_DEADLOCK FALSE
"""
OPT_MC = """SPECIFICATION MCSpec
INVARIANTS Emit
CHECK_DEADLOCK FALSE
"""
BROKEN = r"Invariant \w+ is violated|Deadlock reached"
W, S = {"o": "wait"}, {"o": "send"}


def P(i, a="none"):
    return {"o": "poll", "i": i, "a": a}


def model(c, threads, budget, waits, actions, tasks="FALSE"):
    c.tlc("NotifyImpl", IMPL % (", ".join(str(t + 1) for t in range(threads)), budget, waits, "FALSE", "TRUE", actions, tasks, "no"),
          what="the notifier as built keeps its promises (%d threads, %d calls each, %d waits, wakers: %s%s)" % (
              threads, budget, waits, actions, ", one for each thread" if tasks == "TRUE" else ""))


def controls(c):
    """the model tells the notifier as first found and one without the second look from this one"""
    a = c.tlc("NotifyImpl", IMPL % ("1, 2", 2, 1, "TRUE", "TRUE", '"none", "send"', "FALSE", "no"), expect_error=BROKEN)
    b = c.tlc("NotifyImpl", IMPL % ("1, 2", 2, 1, "FALSE", "FALSE", '"none"', "FALSE", "no"), expect_error=BROKEN)
    # wakers of tasks registered once: right, unless one poll withdraws what another one needs
    c.tlc("NotifyImpl", IMPL % ("1, 2", 4, 2, "FALSE", "TRUE", '"none"', "TRUE", "keep"))
    d = c.tlc("NotifyImpl", IMPL % ("1, 2", 4, 2, "FALSE", "TRUE", '"none"', "TRUE", "withdraw"), expect_error=BROKEN)
    if not all(any(re.search(BROKEN, l) for l in x) for x in (a, b, d)):
        raise RuntimeError("the model no longer tells broken notifiers")


def scripts(n):
    """all scripts of n calls by one thread, polls only of waits it made"""
    out = []
    for ops in itertools.product(["w", "s", "p0", "p1"], repeat=n):
        made, ok = 0, True
        for o in ops:
            if o == "w":
                made += 1
            elif o[0] == "p" and int(o[1]) >= made:
                ok = False
        if ok:
            out.append([W if o == "w" else S if o == "s" else P(int(o[1])) for o in ops])
    return out


def useful(threads):
    return any(o["o"] == "wait" for t in threads for o in t) and any(o["o"] == "send" for t in threads for o in t) \
        and any(o["o"] == "poll" for t in threads for o in t)


def judge_file(c, f, what, *args):
    g = f + ".out"
    r = c.harness("notify-run", "--in", f, "--out", g, *args, cases=f, limit=120)
    rows, rejected, mine = history.judge(c, "NotifyTrace", TRACE, g, c.pid, what, "notify", chunk=8000)
    if len(c.samples) < 4 and rows:
        with open(g) as fh:
            for i, l in enumerate(fh):
                if i == rows // 2:
                    c.samples.append({"from": what, "history": json.loads(l)})
    c.note("%s: %d programs, %d schedules run on the code (%d programs completely), %d distinct histories, %d events, %d rejected" % (
        what, r["cases"], r["runs"], r["complete"], rows, r["events"], rejected))


def write(f, programs):
    with open(f, "w") as w:
        for p in programs:
            w.write(json.dumps(p) + "\n")


def families(c, n2, n3, bound, bound3):
    two = [{"setup": [], "threads": [a, b]} for k in range(1, n2 + 1) for a in scripts(k) for j in range(1, k + 1) for b in scripts(j)
           if useful([a, b])]
    f = c.path("n2")
    write(f, two)
    judge_file(c, f, "all programs of two threads up to %d calls, up to %d preemptions" % (n2, bound), "--bound", bound)
    three = [{"setup": [], "threads": list(t)} for t in itertools.combinations_with_replacement(
        [s for k in range(1, n3 + 1) for s in scripts(k)], 3) if useful(t)]
    f = c.path("n3")
    write(f, three)
    judge_file(c, f, "all programs of three threads up to %d calls, up to %d preemptions" % (n3, bound3), "--bound", bound3)


def tasks(c, bound):
    """one task, one waker: several waits polled with the same one"""
    def T(i, t=1):
        return {"o": "poll", "i": i, "t": t}
    out = []
    for sends in ([S], [S, S]):
        for before in ([], [S]):
            out += [{"setup": before + [W], "threads": [[T(0), W, T(1), T(0)], sends]},
                    {"setup": before + [W, W], "give": [0, 0], "threads": [[T(0), T(1), T(0), T(1)], sends]},
                    {"setup": before + [W, W], "give": [0, 0], "threads": [[T(0), T(1), T(1), W, T(2)], sends]},
                    {"setup": before + [W, W], "give": [0, 1], "threads": [[T(0), T(0)], [T(0), T(0)], sends]},
                    {"setup": before + [W, W], "give": [0, 0], "threads": [[T(0), P(0), T(1), T(0, 2), T(1)], sends]},
                    {"setup": before + [W, W], "give": [0, 0], "threads": [[T(0), T(1), {"o": "forget", "i": 1}, W, T(1)], sends]},
                    {"setup": before + [W, W, W], "give": [0, 0, 1], "threads": [[T(0), T(1), T(1)], [T(0, 2), sends[0], T(0)], [S]]}]
    f = c.path("nt")
    write(f, out)
    judge_file(c, f, "several waits of one task, up to %d preemptions" % bound, "--bound", bound, "--runs", 60000)


def reentrant(c, bound):
    """wakers that send, wait or panic; waits made beforehand; many waits; earlier sends"""
    out = []
    for a in ("send", "wait", "panic"):
        out += [{"setup": [], "threads": [[W, P(0, a), P(0)], [S]]},
                {"setup": [], "threads": [[W, P(0, a), P(0)], [S, S]]},
                {"setup": [W, W], "give": [0, 1], "threads": [[P(0, a), P(0)], [P(0), P(0)], [S]]},
                {"setup": [W, W], "give": [0, 1], "threads": [[P(0, a), P(0)], [P(0, a), S, P(0)]]},
                {"setup": [W], "threads": [[P(0, a), P(0, a), S, P(0)], [S]]},
                {"setup": [S, S, W], "threads": [[P(0, a), P(0)], [S, W, P(0)]]}]
    for k in range(1, 5):
        out += [{"setup": [W] * k, "give": [0] * k, "threads": [[P(i) for i in range(k)] + [P(i) for i in range(k)], [S]]},
                {"setup": [S] * k + [W], "threads": [[P(0), P(0)], [W, P(0)]]},
                {"setup": [S] * k + [W], "threads": [[P(0), S, P(0)], [W, P(0), P(0)]]},
                {"setup": [W] + [S] * k, "threads": [[P(0), P(0)], [W, P(0)]]}]
    out += [{"setup": [W, W, W], "give": [0, 1, 2], "threads": [[P(0), P(0)], [P(0), P(0)], [P(0)], [S]]},
            {"setup": [W, W], "give": [0, 1], "threads": [[P(0), P(0)], [P(0), P(0)], [S], [S]]},
            {"setup": [W, W], "give": [0, 0], "threads": [[P(0), P(1), {"o": "forget", "i": 0}, P(0)], [S]]}]
    f = c.path("nr")
    write(f, out)
    judge_file(c, f, "wakers that send, wait or panic; many waits; earlier sends, up to %d preemptions" % bound, "--bound", bound, "--runs", 60000)


def N(n):
    return {"o": "sends", "n": n}


def many(c, top):
    """hundreds of waits and sends on one notifier: counts must not matter"""
    out = []
    for k in (10, 33, 65, 100, 129, top):
        for before in ([], [S], [N(7)]):
            out += [{"setup": before + [W] * k, "give": [0] * k, "threads": [[P(i) for i in range(k)] + [W, P(k), P(k), S] + [P(i) for i in range(k + 1)]]},
                    {"setup": before + [W] * k, "give": [0] * k, "threads": [[P(i) for i in range(k)] + [S, W, P(k), W, P(k + 1), S, P(k), P(k + 1)] + [P(i) for i in range(k)]]}]
        out += [{"setup": [S] * k + [W], "threads": [[P(0), S, P(0)]]},
                {"setup": [], "threads": [[W] + [P(0)] * k + [S, P(0)] + [W, P(1), S] * 5 + [P(1)]]},
                {"setup": [W] + [S] * k, "threads": [[P(0), W, P(1), P(0)]]},
                # one wait and send after another
                {"setup": [], "threads": [[x for i in range(k) for x in (W, P(i), S, P(i), P(max(0, i - 3)))]]}]
    # versions around powers of two
    for k in [x + d for x in (32, 64, 128, 256, 512, 1024, 4096, 32768, 65536, 131072) for d in (-1, 0, 1)]:
        out += [{"setup": [W, N(k)], "threads": [[P(0), P(0)]]},
                {"setup": [N(k), W], "threads": [[P(0), P(0), S, P(0)]]},
                {"setup": [N(3), W, N(k), W], "give": [0, 0], "threads": [[P(1), P(0), P(1)]]},
                {"setup": [W], "threads": [[P(0), N(k), P(0), W, P(1)]]}]
    f = c.path("nm")
    write(f, out)
    judge_file(c, f, "up to %d waits and 131073 sends on one notifier" % top, "--bound", 0)


def rand(c, n, seed, runs):
    rnd = random.Random(seed)
    out = []
    for _ in range(n):
        nt = rnd.choice([1, 2, 3, 3, 4])
        # each program has its own taste
        wait, poll, send = rnd.choice([1, 2, 4]), rnd.choice([2, 4, 8]), rnd.choice([1, 2, 3])
        task = rnd.choice([0, 0, 0.5, 1])
        acts = ["none"] * rnd.choice([3, 6, 20]) + ["send", "wait", "panic"]
        setup = [rnd.choice([W, W, S]) for _ in range(rnd.choice([0, 1, 2, 5, 12]))]
        give = [rnd.randrange(nt) for o in setup if o["o"] == "wait"]
        threads = []
        for t in range(nt):
            have, ops = give.count(t), []
            for _ in range(rnd.randint(1, rnd.choice([4, 7, 7, 40 // nt]))):
                k = rnd.choices(["wait", "poll", "send", "forget"], [wait, poll if have else 0, send, 0.3 if have > 1 else 0])[0]
                if k == "wait":
                    ops.append(W)
                    have += 1
                elif k == "poll":
                    ops.append(P(rnd.choice([rnd.randrange(have), have - 1]), rnd.choice(acts)))
                    if rnd.random() < task:
                        ops[-1] = {"o": "poll", "i": ops[-1]["i"], "t": rnd.choice([t + 1, t + 1, 1, 9])}
                elif k == "forget":
                    ops.append({"o": "forget", "i": rnd.randrange(have)})
                    have -= 1
                else:
                    ops.append(S)
            threads.append(ops)
        out.append({"setup": setup, "give": give, "threads": threads})
    f = c.path("nx-%d" % seed)
    write(f, out)
    judge_file(c, f, "random programs, %d random schedules each" % runs, "--random", seed, "--runs", runs, "--bound", 1000)


def options(c):
    out = c.tlc("OptionFuture", OPT_MC, what="optional futures")
    f = c.path("opt")
    history.collect(c, out, f)
    g = f + ".out"
    r = c.harness("option-run", "--in", f, "--out", g, cases=f)
    rows, rejected, mine = history.judge(c, "OptionTrace", TRACE, g, c.pid, "optional future", "option", keep=("some", "pend", "value", "wakes", "polls"))
    c.note("optional futures: %d scripts run on the code, %d polls, %d rejected" % (rows, r["events"], rejected))


def run(c):
    if c.quick:
        jobs = [lambda: families(c, 3, 2, 2, 2), lambda: controls(c),
                lambda: model(c, 2, 3, 2, '"none", "send"'), lambda: model(c, 3, 2, 2, '"none"'),
                lambda: model(c, 2, 4, 2, '"none"', "TRUE"), lambda: tasks(c, 2),
                lambda: reentrant(c, 2), lambda: many(c, 300), lambda: rand(c, 100, c.seed, 40)]
    else:
        jobs = [lambda: families(c, 4, 2, 3, 3), lambda: controls(c),
                lambda: model(c, 3, 2, 2, '"none", "send"'), lambda: model(c, 2, 4, 2, '"none", "send"'),
                lambda: model(c, 2, 5, 3, '"none"', "TRUE"), lambda: model(c, 3, 3, 2, '"none"', "TRUE"), lambda: tasks(c, 4),
                lambda: reentrant(c, 4), lambda: many(c, 1500)] + [lambda k=k: rand(c, 200, c.seed * 100 + k, 150) for k in range(20)]
    if c.pid == "C20":
        jobs.append(lambda: options(c))
    c.parallel(jobs)


def replay(c, d):
    f = c.path("one")
    write(f, [d["case"]])
    if d["kind"] == "option":
        g = f + ".out"
        c.harness("option-run", "--in", f, "--out", g, cases=f)
        return history.judge(c, "OptionTrace", TRACE, g, c.pid, "replayed", "option", keep=("some", "pend", "value", "wakes", "polls"))
    judge_file(c, f, "replayed", "--bound", 3)
