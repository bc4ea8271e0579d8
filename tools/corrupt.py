#!/usr/bin/env python3
"""corrupt <property>...: shows that recordings are really bound to the specification. Runs the quick check's jobs,
but changes one recorded number or truth value in each of some recorded executions before TLC judges them, and tells
how many of the changed recordings are rejected. (Some changes are allowed ones: not all need be.)"""
import copy, json, os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
sys.dont_write_bytecode = True
import core, history, peg, registry

PER_FILE, rnd = 12, random.Random(7)


def leaves(x, path=()):
    if isinstance(x, dict):
        for k, v in x.items():
            if k not in ("e", "k", "what"):
                yield from leaves(v, path + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield from leaves(v, path + (i,))
    elif isinstance(x, (int, bool)):
        yield path


def change(x, path):
    for k in path[:-1]:
        x = x[k]
    v = x[path[-1]]
    x[path[-1]] = (not v) if isinstance(v, bool) else v + rnd.choice([1, -1, 1, 2]) if v > 0 else v + 1


def changed(rows, field):
    out = []
    for _ in range(400):
        if len(out) == PER_FILE:
            break
        r = copy.deepcopy(rnd.choice(rows))
        ps = list(leaves(r[field]))
        if ps:
            p = rnd.choice(ps)
            change(r[field], p)
            out.append((r, p))
    return out


def main():
    for pid in sys.argv[1:]:
        c = core.Check(pid, "quick", 1)
        count = {}

        def add(name, hit):
            a = count.setdefault(name, [0, 0])
            a[0] += 1
            a[1] += hit

        def judge(c, module, cfg, outfile, label, what, kind, keep=(), chunk=0, limit=0):
            rows = [json.loads(l) for l in open(outfile).read().splitlines()[:3000]]
            for r, p in changed(rows, "ev"):
                f = outfile + ".x"
                with open(f, "w") as w:
                    w.write(json.dumps({x: r[x] for x in ("ev",) + tuple(keep)}) + "\n")
                try:
                    hit = any(True for _ in c.printed(c.tlc(module, cfg, env={"CASES": f}, small=True), "REJECT"))
                except core.ToolError:
                    hit = True
                add(module + " " + str(r["ev"][p[0]]["e"]) + "." + ".".join(str(x) for x in p[1:2]), hit)
            return len(rows), 0, 0

        def pjudge(c, lines_file, view, across, what):
            rows = [json.loads(l) for l in open(lines_file).read().splitlines()[:3000]]
            for r, p in changed(rows, "obs") if rows else []:
                f = lines_file + ".x"
                with open(f, "w") as w:
                    w.write(json.dumps(r) + "\n")
                try:
                    hit = any(True for _ in c.printed(c.tlc("PegTrace", peg.TRACE_CFG % "full", env={"CASES": f}, small=True), "MISMATCH"))
                except core.ToolError:
                    hit = True
                add("PegTrace obs", hit)
            return 0
        for m in list(sys.modules.values()):
            if getattr(m, "history", None) is history:
                m.history.judge = judge
        peg.judge = pjudge
        registry.CHECKS[pid][0](c)
        c.close()
        print("%s: %d of %d changed recordings rejected" % (pid, sum(b for _, b in count.values()), sum(a for a, _ in count.values())))
        for k in sorted(count):
            print("   %-40s %d of %d" % (k, count[k][1], count[k][0]))


main()
