"""P08: longitudinal motion (Motion.tla)."""
import random
import vf, esm, osc

M = 4096
INV = ["Kinematics", "OnlyByAction", "Limits", "AccLimit", "Reached", "Between", "OneEach"]


def pursuit(rng):
    """a limited entity that keeps following the speed of another one, which changes it abruptly"""
    ent = [dict(s0=(1000 + 300 * i) * M, v0=rng.choice([5, 10, 20]) * M, dir=rng.choice([1, -1]), vmax=rng.choice([24, 30, 1000]) * M if i == 0 else 1000 * M,
                amax=rng.choice([2, 4, 5, 10]) * M if i == 0 else 0, dmax=rng.choice([3, 6, 10]) * M if i == 0 else 0) for i in range(2)]
    tk = rng.choice(["delta", "factor"])
    act = [dict(e=1, shape="linear", dim="time", x=rng.choice([2, 4, 8]), tk=tk, tv=rng.choice([-3, 0, 2]) * M if tk == "delta" else rng.choice([8, 16, 24]), ref=2, cont=True, max=1)]
    for _ in range(3):
        act.append(dict(e=2, shape="step", dim="time", x=0, tk="abs", tv=rng.choice([0, 5, 10, 20, 30]) * M, ref=2, cont=False, max=9))
    ops = [dict(o="init", g=0, dt=0), dict(o="step", g=1, dt=4)]
    for _ in range(rng.randint(14, 24)):
        ops.append(dict(o="step", g=rng.choice([2, 3, 4]) if rng.random() < 0.25 else 0, dt=rng.choice([1, 2, 4, 4, 8])))
    return dict(sc=dict(ent=ent, act=act), ops=ops)


def gen(rng, reexec=True):
    if rng.random() < 0.08:
        return pursuit(rng)
    ent = []
    for i in range(rng.randint(1, 3)):
        lim = rng.random() < 0.35
        ent.append(dict(s0=(1000 + 300 * i) * M, v0=rng.choice([0, 0, 5, 10, 20, 7, 12, -4]) * M, dir=rng.choice([1, 1, -1]), vmax=rng.choice([30, 60, 1000]) * M if rng.random() < 0.4 else 1000 * M,
                        amax=rng.choice([2, 4, 5, 10]) * M if lim else 0, dmax=rng.choice([3, 6, 10]) * M if lim else 0))
    act = []
    for _ in range(rng.randint(2, 6)):
        e = rng.randint(1, len(ent))
        lim = ent[e - 1]["amax"] > 0
        others = [j + 1 for j in range(len(ent)) if j + 1 != e]
        tk = rng.choice(["abs", "abs", "delta", "factor"]) if others else "abs"
        shape = rng.choice(["linear", "linear", "cubic", "sin", "step"])
        dim = rng.choice(["time", "rate", "dist"]) if shape == "linear" else "time"
        if tk == "factor" and dim == "dist":
            dim = "time"
        x = 0 if shape == "step" else {"time": lambda: rng.choice([8, 16, 32]) if shape == "sin" else rng.choice([2, 4, 7, 8, 12, 16, 24, 40, 64]), "rate": lambda: rng.choice([1, 2, 3, 4, 8]) * M, "dist": lambda: rng.choice([4, 10, 20, 33, 60]) * M}[dim]()
        tv = {"abs": lambda: rng.choice([0, 5, 10, 13, 20, 25, 35, -5, -3, 70]) * M, "delta": lambda: rng.choice([-3, 0, 2, 5]) * M, "factor": lambda: rng.choice([8, 16, 24, 32, 0])}[tk]()
        act.append(dict(e=e, shape=shape, dim=dim, x=x, tk=tk, tv=tv, ref=rng.choice(others) if others else e, cont=tk != "abs" and dim == "time" and rng.random() < 0.5, max=rng.choice([1, 2, 3]) if reexec else 1))
    ops = [dict(o="init", g=0, dt=0)]
    for _ in range(rng.randint(10, 24)):
        ops.append(dict(o="step", g=rng.randint(1, len(act)) if rng.random() < 0.4 else 0, dt=rng.choice([0, 1, 1, 2, 2, 4, 4, 8])))
    return dict(sc=dict(ent=ent, act=act), ops=ops)


def xml(case):
    sc = case["sc"]
    big = 100000.0
    ents = [("V%d" % (i + 1), osc.veh("c%d" % i, vmax=e["vmax"] / M, amax=e["amax"] / M or big, dmax=e["dmax"] / M or big)) for i, e in enumerate(sc["ent"])]
    init = {"V%d" % (i + 1): osc.teleport_lane(-1 if e["dir"] == 1 else 1, e["s0"] / M) + osc.speed(e["v0"] / M) for i, e in enumerate(sc["ent"])}
    gs = ""
    for i, a in enumerate(sc["act"]):
        if a["tk"] == "abs":
            tgt = '<AbsoluteTargetSpeed value="%r"/>' % (a["tv"] / M)
        else:
            tgt = '<RelativeTargetSpeed entityRef="V%d" value="%r" speedTargetValueType="%s" continuous="%s"/>' % (
                a["ref"], a["tv"] / M if a["tk"] == "delta" else a["tv"] / 16, a["tk"], "true" if a["cont"] else "false")
        x = a["x"] / 16 if a["dim"] == "time" else a["x"] / M
        sh = {"sin": "sinusoidal"}.get(a["shape"], a["shape"])
        gs += osc.group("G%d" % i, [osc.event("E%d" % (i + 1), osc.speed(tgt, sh, {"dist": "distance"}.get(a["dim"], a["dim"]), x), osc.trigger(osc.varcond("go", i + 1)), n=a["max"])], ["V%d" % a["e"]])
    # one act and group per action, so that the storyboard always keeps the events available
    return osc.scenario(ents, init, osc.act("A", [gs]), variables=osc.intvar("go"))


BAD = -99999999


def units(x, m=M):
    if not isinstance(x, (int, float)) or x != x or abs(x) > 200000:
        return BAD
    return round(x * m)


def job(case, emit):
    L = esm.load()
    L.SE_SetOptionPersistent("disable_stdout")
    L.vf_register_early(None)
    open("s.xosc", "w").write(xml(case))
    if L.SE_Init("s.xosc", 0, 0, 0, 0) != 0:
        emit([BAD])
        return
    run = [0] * len(case["sc"]["act"])
    for op in case["ops"]:
        if op["o"] == "step":
            L.SE_SetVariableInt("go", op["g"])
            L.SE_StepDT(op["dt"] / 16)
        for e in L.vf_drain():
            if e[0] == "e" and e[2] == 6 and e[4].startswith("E"):
                run[int(e[4][1:]) - 1] = int(e[3] == 2)
        ob = L.vf_objs()
        emit([units(o["speed"]) for o in ob] + [units(o["s"]) for o in ob] + [units(o["odo"]) for o in ob] + run)
    L.SE_Close()


def run(wd):
    def f(cases):
        return [(rc, dict(sc=c["sc"], ops=c["ops"], obs=lines)) for c, (rc, lines) in zip(cases, esm.run(job, cases, wd))]
    return f


def check(prop, tier):
    chk = vf.Check(prop, tier)
    quick = tier == "quick"
    vf.build()
    with vf.Scratch() as wd:
        vf.model(chk, "MotionMC", INV, wd, "CONSTANT Depth = %d" % (3 if quick else 4), timeout=3000)
        rng = random.Random("%s-%d" % (prop, vf.seed()))
        for b in range(1 if quick else 10):
            cases = [gen(rng) for _ in range(500)]
            runs, bad = vf.conform(chk, "MotionTrace", cases, run(wd), wd, "longitudinal motion", describe=lambda c: dict(case=c, xosc=xml(c)))
            chk.sample(dict(entities=cases[0]["sc"]["ent"], actions=cases[0]["sc"]["act"][:2], operations=cases[0]["ops"][:4], results=runs[0][1]["obs"][:4]))
            if bad:
                break
    chk.assum = ["straight road, default controller", "frame times are multiples of 1/16 s; speeds and positions are compared within 3/4096 m(/s) per frame"]
    return chk.finish()
