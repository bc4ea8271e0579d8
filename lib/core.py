"""Shared machinery of the checks: building the harness, running TLC, evidence and verdicts."""
import hashlib, json, os, re, resource, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, ".build")
HARNESS = os.path.join(BUILD, "target", "debug", "harness")
FINDINGS = os.path.join(VERIF, "known_findings.txt")


class ToolError(Exception):
    """something that is not the code under test went wrong: no verdict"""


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what, self.replay = what, replay


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def build():
    env = dict(os.environ)
    env["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    env["RUSTFLAGS"] = "--cfg parcom_verif -Awarnings"
    env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "target")
    env["CARGO_NET_OFFLINE"] = "true"
    os.makedirs(BUILD, exist_ok=True)
    r = sh(["cargo", "build", "--offline", "--locked"], cwd=os.path.join(VERIF, "harness"), env=env)
    if r.returncode != 0:
        raise ToolError("the harness does not build:\n" + r.stdout[-6000:])


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.parts, self.assumptions = [], [], []
        self.violations = []          # (what, replay data)
        os.makedirs(BUILD, exist_ok=True)
        self.work = tempfile.mkdtemp(prefix="work-%s-" % pid, dir=BUILD)

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)

    def path(self, name):
        return os.path.join(self.work, name)

    def note(self, text):
        self.parts.append(text)
        print("  " + text, flush=True)

    # -- TLC ------------------------------------------------------------------------------------
    def tlc(self, module, cfg, env=None, what=None, workers=8, timeout=3000, expect_error=None, heap="8g",
            simulate=None, depth=100, seed=None, small=False):
        """Runs TLC; returns its output lines. An error TLC reports is an error of the machinery
        (specifications do not come from the code), unless a regular expression for it is given."""
        cfgf = tempfile.mkstemp(prefix=module + "-", suffix=".cfg", dir=self.work)[1]
        with open(cfgf, "w") as f:
            f.write(cfg)
        meta = tempfile.mkdtemp(prefix="tlc-", dir=self.work)
        e = dict(os.environ)
        if small:
            heap, workers = "4g", 2
        e["JAVA_TOOL_OPTIONS"] = "-Xss64m -Xmx%s -Djava.io.tmpdir=%s%s" % (heap, meta, " -XX:ParallelGCThreads=2" if small else "")
        e.update(env or {})
        try:
            more = ["-simulate", "num=%d" % simulate, "-depth", str(depth), "-seed", str(seed or self.seed)] if simulate else []
            r = sh(["tlc", "-noGenerateSpecTE", "-workers", str(1 if simulate else workers), "-metadir", meta,
                    "-config", cfgf] + more + [module + ".tla"], cwd=SPEC, env=e, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC ran out of time on %s" % module)
        shutil.rmtree(meta, ignore_errors=True)
        out = r.stdout
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if m:
            g, d = int(m[-1][0]), int(m[-1][1])
            self.transitions += g
            self.states += d
        ok = "Model checking completed. No error has been found." in out
        if simulate:
            m2 = re.findall(r"The number of states generated: (\d+)", out)
            ok = bool(m2) and "Error:" not in out
            if m2:
                self.transitions += int(m2[-1])
                self.states += int(m2[-1])
        if not ok and not (expect_error and re.search(expect_error, out)):
            raise ToolError("TLC on %s did not succeed:\n%s" % (module, out[-5000:]))
        if what:
            self.note("%s: TLC %s, %s states, %s distinct" % (what, module, m[-1][0] if m else "?", m[-1][1] if m else "?"))
        return out.splitlines()

    @staticmethod
    def printed(lines, tag):
        """values printed by PrintT(tag \\o " " \\o json)"""
        for l in lines:
            if l.startswith('"' + tag + ' '):
                text = json.loads(l)[len(tag) + 1:]
                yield text

    def parallel(self, jobs):
        """runs the jobs at once; the first error of any is raised when all have ended"""
        with ThreadPoolExecutor(max(1, min(len(jobs), 6))) as ex:
            done = [ex.submit(j) for j in jobs]
        for d in done:
            if isinstance(d.exception(), Violation):
                raise d.exception()
        for d in done:
            d.result()

    # -- harness --------------------------------------------------------------------------------
    def harness(self, *args, limit=20, timeout=3000, cases=None):
        """Runs a harness command. A crash or hang of the code under test is a violation; `cases`
        names the file whose line the progress file points to."""
        fd, prog = tempfile.mkstemp(prefix="progress-", dir=self.work)
        os.close(fd)
        os.unlink(prog)
        cmd = [HARNESS] + [str(a) for a in args] + ["--progress", prog, "--limit", str(limit)]

        def limits():
            resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                               timeout=timeout, preexec_fn=limits, cwd=self.work)
        except subprocess.TimeoutExpired:
            raise ToolError("harness ran out of time: %s" % " ".join(cmd))
        if r.returncode == 0:
            last = r.stdout.strip().splitlines()
            return json.loads(last[-1]) if last else {}
        where = open(prog).read().strip() if os.path.exists(prog) else ""
        if r.returncode == 2 or not where:
            raise ToolError("harness failed (%s): %s\n%s" % (r.returncode, " ".join(cmd), r.stderr[-3000:]))
        kind = "hangs" if r.returncode == 3 else "crashes (%s)" % r.returncode
        case = where
        if cases and where.isdigit():
            with open(cases) as f:
                for i, l in enumerate(f):
                    if i == int(where):
                        case = l.strip()
        raise Violation("the code under test %s on case %s" % (kind, where),
                        {"kind": "crash", "args": list(map(str, args)), "case": case, "stderr": r.stderr[-2000:]})

    # -- verdict --------------------------------------------------------------------------------
    def violation(self, what, data):
        self.violations.append((what, data))

    def evidence(self, level, rule):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "samples": [shortened(x) for x in self.samples[:6]], "parts": self.parts, "rule": rule}
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        if len(json.dumps(ev)) > 60000:       # never a file too long to be read
            cov["samples"] = [{"beginning": json.dumps(x)[:1000]} for x in self.samples[:6]]
        p = os.path.join(VERIF, "evidence", self.pid + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(p + ".tmp", p)

    def replay_file(self, data):
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        text = json.dumps(data, indent=1)
        p = os.path.join(d, "%s-%s.json" % (self.pid, hashlib.sha1(text.encode()).hexdigest()[:10]))
        with open(p, "w") as f:
            f.write(text)
        return p


def shortened(sample):
    """A sample for the evidence file: a long one (histories of thousands of events) by its beginning."""
    text = json.dumps(sample)
    if len(text) <= 6000:
        return sample
    out = {k: v for k, v in sample.items() if isinstance(v, str) and len(v) < 500}
    out["beginning"], out["length"] = text[:3000], len(text)
    return out


def known_findings(pid):
    """[(text)] of the open findings of a property: lines 'finding: property=<id> match=<regex> <text>'"""
    out = []
    if os.path.exists(FINDINGS):
        for l in open(FINDINGS):
            m = re.match(r"finding: property=(\S+) match=/(.*?)/ (.*)", l.strip())
            if m and m.group(1) == pid:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out
