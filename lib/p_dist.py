"""P17: parameter value distributions (Dist.tla)."""
import ctypes as C, glob, os, random, re
import vf, esm, osc

U = 64
BAD = -99999999
INV = ["EveryCombination", "OncePerSweep", "Rightmost", "SelectedRuns", "ResetForgets", "LaterWins", "RefusedChangesNothing"]
TY = ["integer", "double", "string", "boolean"]
WORDS = ["a", "bb", "x_1", "R2D2", "left"]


def text(ty, v, r):
    if ty == "string":
        return WORDS[v]
    if ty == "boolean":
        return r.choice(["true", "1"]) if v else r.choice(["false", "0"])
    x = v / U
    return str(int(x)) if x == int(x) and (ty == "integer" or r.random() < 0.6) else repr(x)


def value(ty, r):
    return r.randrange(len(WORDS)) if ty == "string" else r.randrange(2) if ty == "boolean" else r.randint(-3, 12) * U if ty == "integer" else r.choice([1, 3, 16, 32, 48, 64, 100, 640, -32]) * r.choice([1, 1, 2])


def distfile(r, types, names, big):
    """(description for the specification, file text)"""
    n = len(types)
    dims, x = [], ""
    broken = r.random() < 0.15
    kind = r.choice(["missing", "badxml", "noname", "reversed", "user", "empty", "zero", "norange", "nodist", "noset"]) if broken else ""
    total = 1
    for _ in range(r.choice([1, 1, 2, 2, 3, 4])):
        if total > (40 if big else 12):
            break
        k = r.random()
        if k < 0.45:
            sets, t = [], ""
            for _ in range(r.randint(1, 4)):
                s = []
                for p in (r.sample(range(n), r.randint(1, min(3, n))) if r.random() < 0.93 else [r.randrange(n), n]):
                    v = value(types[p], r) if p < n else 0
                    s.append(dict(p=p + 1, v=v))
                    t += '<ParameterAssignment parameterRef="%s" value="%s"/>' % (names[p] if p < n else "nobody", text(types[p], v, r) if p < n else "1")
                sets.append(s)
                t = t + "\0"
            t = "".join("<ParameterValueSet>%s</ParameterValueSet>" % q for q in t.split("\0")[:-1])
            x += "<DeterministicMultiParameterDistribution><ValueSetDistribution>%s</ValueSetDistribution></DeterministicMultiParameterDistribution>" % t
            dims.append(dict(k="sets", sets=sets, p=0, lo=0, hi=0, st=1))
            total *= len(sets)
        else:
            nums = [i for i in range(n) if types[i] in ("integer", "double")]
            if k < 0.75 or not nums:
                p = r.randrange(n)
                vs = [value(types[p], r) for _ in range(r.randint(1, 4))]
                x += '<DeterministicSingleParameterDistribution parameterName="%s"><DistributionSet>%s</DistributionSet></DeterministicSingleParameterDistribution>' % (
                    names[p], "".join('<Element value="%s"/>' % text(types[p], v, r) for v in vs))
                dims.append(dict(k="sets", sets=[[dict(p=p + 1, v=v)] for v in vs], p=0, lo=0, hi=0, st=1))
                total *= len(vs)
            else:
                p = r.choice(nums)
                lo = value(types[p], r)
                st = r.choice([1, 2, 3]) * U if types[p] == "integer" else r.choice([1, 5, 16, 24, 64, 96])
                m = r.randint(0, 4)
                hi = lo + m * st + (r.randrange(st) if r.random() < 0.4 and st > 1 else 0)
                x += '<DeterministicSingleParameterDistribution parameterName="%s"><DistributionRange stepWidth="%r"><Range lowerLimit="%r" upperLimit="%r"/></DistributionRange></DeterministicSingleParameterDistribution>' % (
                    names[p], st / U, lo / U, hi / U)
                dims.append(dict(k="range", sets=[], p=p + 1, lo=lo, hi=hi, st=st))
                total *= m + 1
    one = lambda b: '<DeterministicSingleParameterDistribution parameterName="%s">%s</DeterministicSingleParameterDistribution>' % (names[0], b)
    if kind == "noname":
        x += '<DeterministicSingleParameterDistribution><DistributionSet><Element value="1"/></DistributionSet></DeterministicSingleParameterDistribution>'
    elif kind == "reversed":
        x += one('<DistributionRange stepWidth="1"><Range lowerLimit="3" upperLimit="1"/></DistributionRange>')
    elif kind == "zero":
        x += one('<DistributionRange stepWidth="%s"><Range lowerLimit="1" upperLimit="3"/></DistributionRange>' % r.choice(["0", "-1"]))
    elif kind == "norange":
        x += one('<DistributionRange stepWidth="1"/>')
    elif kind == "user":
        x += one('<UserDefinedDistribution type="x">y</UserDefinedDistribution>')
    elif kind == "nodist":
        x += one("")
    elif kind == "noset":
        x += "<DeterministicMultiParameterDistribution/>"
    body = "" if kind == "empty" else "<Deterministic>%s</Deterministic>" % x
    t = ('<?xml version="1.0"?><OpenSCENARIO><FileHeader revMajor="1" revMinor="1" date="2024-01-01T00:00:00" description="" author=""/>'
         '<ParameterValueDistribution><ScenarioFile filepath="s.xosc"/>%s</ParameterValueDistribution></OpenSCENARIO>') % body
    if kind == "badxml":
        t = t[:len(t) // 2]
    if kind == "empty":
        return dict(ok=True, dims=[]), t
    return dict(ok=not broken, dims=dims), None if kind == "missing" else t


def count(dims):
    c = 1
    for d in dims:
        c *= len(d["sets"]) if d["k"] == "sets" else (d["hi"] - d["lo"]) // d["st"] + 1
    return c if dims else 0


def gen(r):
    n = r.randint(1, 4)
    types = [r.choice(TY) for _ in range(n)]
    names = r.sample(["A", "AB", "B", "speed", "e_x"], n)
    decl = [value(t, r) for t in types]
    files = [distfile(r, types, names, r.random() < 0.2) for _ in range(r.randint(1, 3))]
    ops, dims, idx, req = [], [], -1, 0

    def load(f):
        nonlocal dims, idx, req
        dims, idx, req = (files[f][0]["dims"] if files[f][0]["ok"] else []), -1, 0

    def run(o, **kw):
        nonlocal idx, req
        num = count(dims)
        if kw["perm"] == -1 and num and req < 0 and idx + 1 >= num:
            return False
        ops.append(dict(o=o, **kw))
        if num and not (kw["perm"] != -1 and not 0 <= kw["perm"] < num):
            idx = kw["perm"] if kw["perm"] != -1 else req if req >= 0 else idx + 1
            req = -1
        return True
    for _ in range(r.randint(4, 9)):
        k = r.random()
        num = count(dims)
        if k < 0.25 and not (num and r.random() < 0.5):
            f = r.randrange(len(files))
            ops.append(dict(o="load", f=f + 1))
            load(f)
        elif k < 0.32:
            ops.append(dict(o="reset"))
            dims, idx, req = [], -1, 0
        elif k < 0.5:
            i = r.randrange(num + 2)
            ops.append(dict(o="select", i=i))
            if i < num:
                req = i
        elif k < 0.6:
            ops.append(dict(o=r.choice(["num", "index"])))
        elif k < 0.66:
            f = r.randrange(len(files))
            if not dims and files[f][1] is None:
                continue
            if not dims:
                load(f)
                if not dims and files[f][0]["ok"]:
                    continue                       # a distribution without parameters
            if not run("initdist", f=f + 1, perm=-1, rec=False):
                if dims:
                    continue
        elif k < 0.76:
            run("init", perm=r.choice([-1, 0, max(num - 1, 0), num, num + 1, r.randrange(num + 1)]), rec=r.random() < 0.5)
        elif k < 0.82 and num and num <= 12:           # a sweep
            ops.append(dict(o="select", i=0))
            req = 0
            for _ in range(num):
                run("init", perm=-1, rec=False)
        else:
            run("init", perm=-1, rec=r.random() < 0.2)
    return dict(sc=dict(decl=decl, files=[f for f, _ in files]), ops=ops, types=types, names=names, files=[t for _, t in files], decltext=[text(t, v, r) for t, v in zip(types, decl)])


def xml(c):
    ps = "".join('<ParameterDeclaration name="%s" parameterType="%s" value="%s"/>' % x for x in zip(c["names"], c["types"], c["decltext"]))
    return osc.scenario([("V", osc.veh())], {"V": osc.teleport_lane(-1, 20.0)}, "", params=ps)


def job(case, emit):
    L = esm.load()
    T = {"integer": ("Int", C.c_int), "double": ("Double", C.c_double), "string": ("String", C.c_char_p), "boolean": ("Bool", C.c_bool)}
    open("s.xosc", "w").write(xml(case))
    for i, t in enumerate(case["files"]):
        if t is not None:
            open("d%d.xosc" % (i + 1), "w").write(t)
    L.SE_SetOptionPersistent("disable_stdout")

    def value(n, ty):
        f, ct = T[ty]
        b = ct()
        if getattr(L, "SE_GetParameter" + f)(n, C.byref(b)) != 0:
            return BAD
        if ty == "string":
            s = (b.value or b"").decode()
            return WORDS.index(s) if s in WORDS else BAD
        if ty == "double":
            return round(b.value * U) if abs(b.value * U - round(b.value * U)) < 1e-3 else BAD
        return int(b.value) * (U if ty == "integer" else 1)
    for op in case["ops"]:
        o = op["o"]
        if o == "load":
            emit([L.SE_SetParameterDistribution("d%d.xosc" % op["f"])])
        elif o == "reset":
            L.SE_ResetParameterDistribution()
            emit([0])
        elif o == "select":
            emit([min(0, L.SE_SelectPermutation(op["i"]))])
        elif o == "num":
            emit([L.SE_GetNumberOfPermutations()])
        elif o == "index":
            emit([L.SE_GetPermutationIndex()])
        else:
            f = "s.xosc" if o == "init" else "d%d.xosc" % op["f"]
            if op["perm"] == -1 and not op["rec"]:
                rc = L.SE_Init(f, 0, 0, 0, 0)
            else:
                a = ["--osc", f, "--disable_stdout"] + (["--record", "rec.dat"] if op["rec"] else []) + (["--param_permutation", str(op["perm"])] if op["perm"] != -1 else [])
                for g in glob.glob("rec*.dat"):
                    os.unlink(g)
                rc = L.SE_InitWithArgs(len(a), (C.c_char_p * len(a))(*[x.encode() for x in a]))
            if rc != 0:
                emit([-1])
                continue
            res = [0, L.SE_GetNumberOfPermutations(), L.SE_GetPermutationIndex()] + [value(n, t) for n, t in zip(case["names"], case["types"])]
            L.SE_StepDT(0.125)
            L.SE_Close()
            if op["rec"]:
                g = glob.glob("rec*.dat")
                m = re.fullmatch(r"rec(?:_(\d+)_of_(\d+))?\.dat", g[0]) if len(g) == 1 else None
                res += [int(m[1] or 0), int(m[2] or 0)] if m else [BAD]
            emit(res)


def run(wd):
    def f(cases):
        return [(rc, dict(sc=c["sc"], ops=c["ops"], obs=lines)) for c, (rc, lines) in zip(cases, esm.run(job, cases, wd, limit=30))]
    return f


def check(prop, tier):
    chk = vf.Check(prop, tier)
    quick = tier == "quick"
    vf.build()
    with vf.Scratch() as wd:
        vf.model(chk, "DistMC", INV, wd, "CONSTANT Depth = %d" % (7 if quick else 9), timeout=3000)
        rng = random.Random("%s-%d" % (prop, vf.seed()))
        for b in range(1 if quick else 10):
            cases = [gen(rng) for _ in range(400)]
            runs, bad = vf.conform(chk, "DistTrace", cases, run(wd), wd, "parameter distributions", describe=lambda c: dict(xosc=xml(c), distributions=c["files"], case=c))
            chk.sample(dict(operations=cases[0]["ops"], results=runs[0][1]["obs"]))
            if bad:
                break
    chk.assum = ["numbers are multiples of 1/64", "no run is started after the last permutation without selecting one"]
    return chk.finish()
