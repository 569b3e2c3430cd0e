"""P23: actions injected by the application (Inject.tla)."""
import ctypes as C, math, random
import vf, esm, osc, p_lateral
from p_motion import units, BAD, M

INV = ["OneOfAKind", "ToldTrue", "OnlyTheirs", "Ends", "SameAsScenario"]
KINDS = ["speed", "change", "offset"]


class Speed(C.Structure):
    _fields_ = [("id", C.c_int), ("speed", C.c_double), ("shape", C.c_int), ("dim", C.c_int), ("x", C.c_double)]


class Change(C.Structure):
    _fields_ = [("id", C.c_int), ("mode", C.c_int), ("target", C.c_int), ("shape", C.c_int), ("dim", C.c_int), ("x", C.c_double)]


class Offset(C.Structure):
    _fields_ = [("id", C.c_int), ("offset", C.c_double), ("acc", C.c_double), ("shape", C.c_int)]


def gen(rng):
    w = lambda: [rng.choice([12, 14, 16, 16]) * M // 4 for _ in range(3)]
    ent = []
    for i in range(rng.randint(1, 3)):
        lane = rng.choice([-3, -2, -1, 1, 2, 3])
        lim = rng.random() < 0.2
        ent.append(dict(s0=(1000 + 300 * i) * M, lane=lane, off=rng.choice([0, 0, 0, 1, -1]) * M // 2, v0=rng.choice([0, 4, 10, 10, 15, 20, -4]) * M, dir=1 if lane < 0 else -1,
                        vmax=1000 * M if rng.random() < 0.8 else 20 * M, amax=5 * M if lim else 0, dmax=6 * M if lim else 0))
    act = []
    lat = [rng.choice(["change", "offset"]) for _ in ent]           # one kind of lateral action per entity
    for _ in range(rng.randint(2, 8)):
        e = rng.randint(1, len(ent))
        k = rng.choice(["speed", lat[e - 1], lat[e - 1]])
        shape = rng.choice(["linear", "cubic", "sin", "step"])
        if k == "speed":
            if ent[e - 1]["amax"] and shape in ("cubic", "sin"):
                shape = "linear"
            dim = rng.choice(["time", "rate", "dist"]) if shape == "linear" else "time"
            x = 0 if shape == "step" else {"time": lambda: rng.choice([8, 16, 32]) if shape == "sin" else rng.choice([2, 4, 7, 8, 12, 16, 24, 40, 64]), "rate": lambda: rng.choice([1, 2, 3, 4, 8]) * M, "dist": lambda: rng.choice([4, 10, 20, 33, 60]) * M}[dim]()
            act.append(dict(k=k, e=e, shape=shape, dim=dim, x=x, tk="abs", tv=rng.choice([0, 5, 10, 13, 18, 20, -5, -3]) * M, ref=e, cont=False, max=99))
        elif k == "change":
            dim = rng.choice(["time", "time", "rate", "dist"])
            tk = rng.choice(["abs", "rel"])
            x = 0 if shape == "step" else {"time": lambda: rng.choice([8, 16, 24, 32, 40, 48, 64, 12]) * 4096, "rate": lambda: rng.choice([1, 2, 3, 4]) * M, "dist": lambda: rng.choice([10, 20, 33, 50]) * M}[dim]()
            act.append(dict(k=k, e=e, shape=shape, dim=dim, x=x, tk=tk, lane=rng.choice([-3, -2, -1, 1, 2, 3]) if tk == "abs" else rng.choice([-1, 0, 1]), ref=e, off=0))
        else:
            act.append(dict(k=k, e=e, shape=shape, acc=rng.choice([8, 16, 24, 40, 64]), tk="abs", tv=rng.choice([0, 1, -1, 2, -2, 3, -3]) * M // 2, ref=e))
    ops = [dict(o="init", a=0, dt=0)]
    still, here = set(), set()
    def step(dt):
        ops.append(dict(o="step", a=0, dt=dt))
        still.update(here)
        here.clear()
    for _ in range(rng.randint(12, 30)):
        q = rng.random()
        if q < 0.3:
            a = rng.randint(1, len(act))
            k = (act[a - 1]["k"], act[a - 1]["e"])
            if k in still:
                step(0)
                step(0)                                        # (what is replaced acts for one more frame: known finding)
            ops.append(dict(o="inj", a=a, dt=0))
            here.add(k)
            if k in still or k[0] == "change":
                step(0)                                        # (what is driven in the frame in which a lane change starts is lost: known finding)
        elif q < 0.33:
            ops.append(dict(o="none", k=rng.choice(KINDS), a=0, dt=0, id=rng.choice([-1, len(ent), 77])))
        else:
            step(rng.choice([0, 1, 1, 2, 2, 4, 4, 8]))
    return dict(sc=dict(w=dict(l=w(), r=w()), ent=ent, act=act), ops=ops)


def lost():
    """a lane change whose first frame is not empty"""
    e = dict(s0=1000 * M, lane=-2, off=0, v0=10 * M, dir=1, vmax=1000 * M, amax=0, dmax=0)
    a = dict(k="change", e=1, shape="linear", dim="time", x=4 * 65536, tk="abs", lane=-1, ref=1, off=0)
    st = [dict(o="step", a=0, dt=4)]
    return dict(sc=dict(w=dict(l=[4 * M] * 3, r=[4 * M] * 3), ent=[e], act=[a]), ops=[dict(o="init", a=0, dt=0), dict(o="inj", a=1, dt=0)] + st * 3)


def replaced():
    """a speed action that is replaced by another one"""
    e = dict(s0=1000 * M, lane=-2, off=0, v0=10 * M, dir=1, vmax=1000 * M, amax=0, dmax=0)
    a = dict(k="speed", e=1, shape="linear", dim="rate", x=4 * M, tk="abs", tv=20 * M, ref=1, cont=False, max=99)
    op = lambda o, a, dt: dict(o=o, a=a, dt=dt)
    return dict(sc=dict(w=dict(l=[4 * M] * 3, r=[4 * M] * 3), ent=[e], act=[a, dict(a, x=2 * M, tv=5 * M)]), ops=[op("init", 0, 0), op("inj", 1, 0), op("step", 0, 4), op("step", 0, 4), op("inj", 2, 0), op("step", 0, 4), op("step", 0, 4)])


def xml(case):
    ents = [("V%d" % (i + 1), osc.veh("c%d" % i, vmax=e["vmax"] / M, amax=e["amax"] / M or 1e5, dmax=e["dmax"] / M or 1e5)) for i, e in enumerate(case["sc"]["ent"])]
    init = {"V%d" % (i + 1): osc.teleport_lane(e["lane"], e["s0"] / M, e["off"] / M) + osc.speed(e["v0"] / M) for i, e in enumerate(case["sc"]["ent"])}
    return osc.scenario(ents, init, "", road="r.xodr")


SHAPE = {"cubic": 0, "linear": 1, "sin": 2, "step": 3}
DIM = {"dist": 0, "rate": 1, "time": 2}


def inject(L, a, id):
    if a["k"] == "speed":
        L.SE_InjectSpeedAction(C.byref(Speed(id, a["tv"] / M, SHAPE[a["shape"]], DIM[a["dim"]], a["x"] / (16 if a["dim"] == "time" else M))))
    elif a["k"] == "change":
        L.SE_InjectLaneChangeAction(C.byref(Change(id, int(a["tk"] == "rel"), a["lane"], SHAPE[a["shape"]], DIM[a["dim"]], a["x"] / (65536 if a["dim"] == "time" else M))))
    else:
        L.SE_InjectLaneOffsetAction(C.byref(Offset(id, a["tv"] / M, a["acc"] / 16, SHAPE[a["shape"]])))


def job(case, emit):
    L = esm.load()
    acts = case["sc"]["act"]
    L.SE_SetOptionPersistent("disable_stdout")
    L.vf_register_early(None)
    open("s.xosc", "w").write(xml(case))
    open("r.xodr", "w").write(p_lateral.road(case["sc"]))
    if L.SE_Init("s.xosc", 0, 0, 0, 0) != 0:
        emit([BAD])
        return
    run, names, pend = [0] * len(acts), {}, {k: [] for k in KINDS}       # injected actions are told by the order in which they are first heard of
    L.vf_drain()
    for op in case["ops"]:
        if op["o"] == "step":
            L.SE_StepDT(op["dt"] / 16)
        elif op["o"] == "inj":
            a = acts[op["a"] - 1]
            pend[a["k"]] = [b for b in pend[a["k"]] if acts[b]["e"] != a["e"]] + [op["a"] - 1]
            inject(L, acts[op["a"] - 1], acts[op["a"] - 1]["e"] - 1)
        elif op["o"] == "none":
            inject(L, {"speed": dict(k="speed", tv=M, shape="step", dim="time", x=0), "change": dict(k="change", tk="rel", lane=1, shape="linear", dim="time", x=65536), "offset": dict(k="offset", tv=M, acc=8, shape="sin")}[op["k"]], op["id"])
        for e in L.vf_drain():
            k = {"SpeedAction_": "speed", "LaneChangeAction_": "change", "LaneOffsetAction_": "offset"}.get(e[4].rstrip("0123456789")) if e[0] == "e" else None
            if k and e[4] not in names and e[3] == 2 and pend[k]:
                names[e[4]] = pend[k].pop(0)
            if e[0] == "e" and e[4] in names:
                run[names[e[4]]] = int(e[3] == 2)
        ob = L.vf_objs()
        emit([units(o["speed"]) for o in ob] + [units(o["s"]) for o in ob] + [units(o["tt"]) for o in ob] + [units(math.sin(o["h"])) if abs(math.sin(o["h"])) > 1e-4 else 0 for o in ob] + [o["lane"] for o in ob]
             + run + [int(bool(L.SE_InjectedActionOngoing(t))) for t in (-1, 2, 5, 6)])
    L.SE_Close()


def run(wd):
    def f(cases):
        return [(rc, dict(sc=c["sc"], ops=c["ops"], obs=lines)) for c, (rc, lines) in zip(cases, esm.run(job, cases, wd))]
    return f


def check(prop, tier):
    chk = vf.Check(prop, tier)
    quick = tier == "quick"
    vf.build()
    with vf.Scratch() as wd:
        vf.model(chk, "InjectMC", INV, wd, "CONSTANT Depth = %d" % (4 if quick else 5), timeout=3000)
        rng = random.Random("%s-%d" % (prop, vf.seed()))
        vf.conform(chk, "InjectTrace", [lost()], run(wd), wd, "first frame of a lane change", known=lambda c, t, k, e: "first-frame" if k == 4 and t["obs"][3][1] < 1002.6 * M and t["obs"][3][:1] + t["obs"][3][2:] == e[:1] + e[2:] else None)
        vf.conform(chk, "InjectTrace", [replaced()], run(wd), wd, "replaced action", known=lambda c, t, k, e: "replaced" if k == 6 and t["obs"][5][0] == 12 * M and t["obs"][5][2:] == e[2:] else None)
        for b in range(1 if quick else 10):
            cases = [gen(rng) for _ in range(500)]
            runs, bad = vf.conform(chk, "InjectTrace", cases, run(wd), wd, "injected actions", describe=lambda c: dict(case=c, xosc=xml(c), xodr=p_lateral.road(c["sc"])))
            chk.sample(dict(entities=cases[0]["sc"]["ent"], actions=cases[0]["sc"]["act"][:2], operations=cases[0]["ops"][:4], results=runs[0][1]["obs"][:4]))
            if bad:
                break
    chk.assum = ["straight road, default controller, no actions of the scenario while injected ones run, one kind of lateral action per entity",
                 "frame times are multiples of 1/16 s; speeds and positions are compared within 1/100 m(/s) per frame"]
    return chk.finish()
