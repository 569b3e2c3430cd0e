"""Common machinery of the checks: build, drivers, TLC runs, verdicts, evidence."""
import os, sys, json, time, subprocess, tempfile, shutil, re, random, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", VERIF + "/.build")
SPEC = VERIF + "/spec"
NCPU = int(os.environ.get("VERIF_JOBS", "8"))


class Infra(Exception):
    """The machinery itself failed: no verdict (exit 2)."""


def seed():
    return int(os.environ.get("VERIF_SEED", "1"))


def build():
    p = subprocess.run([sys.executable, VERIF + "/tools/build.py"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise Infra("build failed:\n" + p.stdout[-3000:])


class Scratch:
    """A private scratch directory, removed at the end."""
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="vf-", dir=os.environ.get("TMPDIR", "/tmp"))
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def drive(driver, jobs, wd, nproc=NCPU, timeout=600, env=None):
    """jobs: list of field lists.  Returns [(rc string, [json lines] or text lines)]."""
    od = tempfile.mkdtemp(prefix="out-", dir=wd)
    jf = od + "/jobs"
    with open(jf, "w") as f:
        for j in jobs:
            f.write("\t".join(str(x) for x in j) + "\n")
    e = dict(os.environ)
    if env:
        e.update(env)
    p = subprocess.run([BUILD + "/bin/" + driver, jf, od, str(nproc)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                       timeout=timeout, env=e)
    if p.returncode:
        raise Infra("driver %s failed (%d): %s" % (driver, p.returncode, p.stdout[-2000:]))
    res = []
    for n in range(len(jobs)):
        rc = open("%s/%d.rc" % (od, n)).read().strip()
        lines = []
        try:
            with open("%s/%d.json" % (od, n), errors="replace") as f:
                for l in f:
                    try:
                        lines.append(json.loads(l))
                    except ValueError:
                        pass
        except OSError:
            pass
        res.append((rc, lines))
    shutil.rmtree(od, ignore_errors=True)
    return res


def tlc(module, cfg, wd, env=None, workers=NCPU, args=(), timeout=800, heap="8g", stack="64m"):
    """Run TLC on spec/<module>.tla with the given cfg text.  Returns a dict with verdict, counts and output."""
    md = tempfile.mkdtemp(prefix="tlc-", dir=wd)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            os.symlink(SPEC + "/" + f, md + "/" + f)
    with open(md + "/M.cfg", "w") as f:
        f.write(cfg)
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    if env:
        e.update({k: str(v) for k, v in env.items()})
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss" + stack, "-Djava.io.tmpdir=" + md, "-cp", tla_classpath(), "tlc2.TLC", "-workers", str(workers), "-config", "M.cfg",
           "-metadir", md + "/states", "-nowarning", "-deadlock"] + list(args) + [module]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=md, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, env=e)
    except subprocess.TimeoutExpired:
        raise Infra("TLC timed out on " + module)
    out = p.stdout
    r = {"out": out, "rc": p.returncode, "wall": time.time() - t0, "states": 0, "distinct": 0}
    for m in re.finditer(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out):
        r["states"], r["distinct"] = int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))
    m = re.search(r"depth of the complete state graph search is (\d+)", out)
    r["depth"] = int(m.group(1)) if m else 0
    r["violated"] = sorted(set(re.findall(r"Invariant (\w+) is violated", out) + re.findall(r"Action property (\w+) is violated", out) +
                               (["Temporal"] if "Temporal properties were violated" in out else [])))
    r["prints"] = [json.loads(x.replace('\\"', '"')) for x in re.findall(r'^"VF (.*)"$', out, re.M)]
    r["ok"] = p.returncode == 0 and not r["violated"] and "Model checking completed. No error has been found" in out
    if not r["ok"] and not r["violated"]:
        keep = os.environ.get("VERIF_KEEP")
        if keep:
            shutil.copytree(md, keep, dirs_exist_ok=True)
        raise Infra("TLC failed on %s (rc %d):\n%s" % (module, p.returncode, out[-4000:]))
    shutil.rmtree(md, ignore_errors=True)
    return r


def tla_classpath():
    d = "/opt/veriftools/tla"
    return ":".join(sorted(d + "/" + f for f in os.listdir(d) if f.endswith(".jar")))


def dump(path, obj):
    with open(path, "w") as f:
        json.dump(obj, f, separators=(",", ":"))
    return path


class Check:
    """Collects what a check covered; finish() writes the evidence, prints the verdict and returns the exit code."""
    def __init__(self, prop, tier):
        self.prop, self.tier, self.t0 = prop, tier, time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.viol, self.assum, self.known = [], [], []
        kf = VERIF + "/known_findings.json"
        self.findings = [k for k in json.load(open(kf)) if k.get("property") == prop and k.get("status") == "known"] if os.path.exists(kf) else []

    def add_mc(self, r):
        self.cov["states"] += r["distinct"]
        self.cov["transitions"] += r["states"]

    def add(self, key, n):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, x, most=3):
        if len(self.cov["samples"]) < most:
            self.cov["samples"].append(x)

    def violation(self, what, replay):
        """replay: a JSON-able object (or text) that reproduces the failure."""
        d = VERIF + "/evidence/replay"
        os.makedirs(d, exist_ok=True)
        h = hashlib.sha1(json.dumps([what, replay], sort_keys=True, default=str).encode()).hexdigest()[:10]
        p = "%s/%s-%s.json" % (d, self.prop, h)
        with open(p, "w") as f:
            json.dump({"property": self.prop, "what": what, "replay": replay}, f, indent=1, default=str)
        self.viol.append((what, p))

    def finding(self, key):
        """True if key is a listed known finding (it is then reported as such)."""
        for k in self.findings:
            if k["key"] == key:
                if key not in self.known:
                    self.known.append(key)
                return True
        return False

    def finish(self):
        wall = time.time() - self.t0
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        ev = {"property": self.prop, "tier": self.tier, "seed": seed(), "level": "model_checking", "coverage": self.cov, "wall_s": round(wall, 2),
              "assumptions": self.assum, "violations": [{"what": w, "replay": p} for w, p in self.viol]}
        with open("%s/evidence/%s.json" % (VERIF, self.prop), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.findings:
            if k["key"] in self.known:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        for w, p in self.viol:
            print("  " + w[:2000])
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
        print("%s %s: %s in %.0f s; %s" % (self.prop, self.tier, "VIOLATED" if self.viol else "held", wall, json.dumps(self.cov)))
        sys.stdout.flush()
        return 1 if self.viol else 0


def replay(module, traces, wd, start="Start", step="Step", timeout=800):
    """Validate recorded traces against spec/<module>.tla (which extends Replay).  Returns (tlc result, {trace index: (op number, expected)})."""
    tf = dump(wd + "/traces.json", traces)
    cfg = "SPECIFICATION Spec\nINVARIANT Conforms\nVIEW View\nCONSTANT Start0 <- %s\nCONSTANT Step0 <- %s\n" % (start, step)
    r = tlc(module, cfg, wd, env={"TRACES": tf}, args=["-continue"], timeout=timeout)
    bad = {p[0] - 1: (p[1], p[2]) for p in r["prints"]}
    if (len(bad) > 0) != (not r["ok"]):
        raise Infra("TLC verdict and printed mismatches disagree\n" + r["out"][-2000:])
    if not bad:
        want = sum(len(t["ops"]) + 1 for t in traces)
        if r["distinct"] != want:
            raise Infra("traces not consumed: %d of %d states" % (r["distinct"], want))
    return r, bad


def conform(chk, module, cases, run, wd, what, known=None, timeout=800, describe=None):
    """cases -> run(cases) -> [(rc, trace)] with trace = dict(sc, ops, obs); every trace must be a behaviour of the specification.
    A rejection counts only if it repeats.  known(case, trace, k, expected) -> key of a known finding or None."""
    runs = run(cases)
    r, bad = replay(module, [t for _, t in runs], wd, timeout=timeout)
    for n, (rc, t) in enumerate(runs):
        if rc != "ok" and n not in bad:
            bad[n] = (len(t["obs"]) + 1, rc)
    left = []
    for n in sorted(bad):
        key = known(cases[n], runs[n][1], bad[n][0], bad[n][1]) if known else None
        if not (key and chk.finding(key)):
            left.append(n)
    if left:
        idx = left[:5]
        again = run([cases[n] for n in idx])
        _, bad2 = replay(module, [t for _, t in again], wd, timeout=timeout)
        for m, n in enumerate(idx):
            rc, t = again[m]
            if m in bad2 or rc != "ok":
                k, exp = bad2.get(m, (len(t["obs"]) + 1, rc))
                ob = t["obs"][k - 1] if 0 < k <= len(t["obs"]) else "no result (%s)" % rc
                op = t["ops"][k - 1] if 0 < k <= len(t["ops"]) else None
                chk.violation("%s: run %d, operation %d %s: observed %s, specification: %s" % (what, n, k, json.dumps(op)[:400], json.dumps(ob)[:600], json.dumps(exp)[:600]),
                              dict(module=module, case=describe(cases[n]) if describe else cases[n], trace=t, operation=k, expected=exp, observed=ob))
    chk.add("traces_validated_against_impl", len(runs))
    chk.add("operations_compared", sum(len(t["obs"]) for _, t in runs))
    chk.add_mc(r)
    return runs, bad


def model(chk, module, invs, wd, consts="", env=None, spec="Spec", timeout=700, props=(), view=None, minstates=2):
    """The guarantee holds on the specification itself (exhaustively, for the given small configurations)."""
    cfg = "SPECIFICATION %s\n" % spec + "".join("INVARIANT %s\n" % i for i in invs) + "".join("PROPERTY %s\n" % p for p in props) + (consts and consts + "\n") + ("VIEW %s\n" % view if view else "")
    r = tlc(module, cfg, wd, env=env, timeout=timeout)
    if not r["ok"]:
        raise Infra("the specification breaks its own guarantee %s\n%s" % (r["violated"], r["out"][-3000:]))
    if r["distinct"] < minstates:
        raise Infra("model %s has only %d states" % (module, r["distinct"]))
    chk.add_mc(r)
    m = chk.cov.setdefault("model", dict(distinct_states=0, transitions=0, invariants=[]))
    m["distinct_states"] += r["distinct"]
    m["transitions"] += r["states"]
    m["invariants"] = sorted(set(m["invariants"]) | set(invs) | set(props))
    return r
