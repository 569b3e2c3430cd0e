"""P21: controllers per domain (Control.tla)."""
import random
import vf, esm, osc
from p_motion import units, BAD
from p_traj import road

M = 4096
INV = ["OneEach", "OnlyAssigned", "NoneTwice", "NotMoved", "NotShifted", "Driven", "Effective", "Asked", "Unasked", "NoRampTaken"]


def gen(rng):
    minor = rng.choice([1, 2, 3, 3, 3])
    ent, ctrl, act = [], [], []
    for i in range(rng.randint(1, 2)):
        ent.append(dict(x0=(100 + 300 * i) * M, y0=rng.choice([-2, -6, -10]) * M, v0=rng.choice([0, 4, 10, 16]) * M))
    for e in range(len(ent)):
        for _ in range(rng.choice([0, 1, 1, 2])):
            ctrl.append(dict(e=e + 1, mode=rng.choice(["ovr", "ovr", "add"]), own=1))
        for _ in range(rng.choice([0, 1, 1, 2])):
            ctrl.append(dict(e=e + 1, mode=rng.choice(["ovr", "ovr", "add"]), own=0))
    for c, C in enumerate(ctrl):
        if not C["own"]:
            act.append(dict(k="assign", e=C["e"], c=c + 1, m=rng.choice([[0, 0], [2, 2], [2, 0], [0, 2], [2, 1], [1, 2], [1, 1]])))
    for e in range(len(ent)):
        # before 1.3 controllers assigned by an action have no name
        mine = [c + 1 for c, C in enumerate(ctrl) if C["e"] == e + 1 and (minor >= 3 or C["own"])]
        for _ in range(rng.randint(2, 4)):
            act.append(dict(k="activate", e=e + 1, c=rng.choice([0] + mine + mine), m=rng.choice([[2, 2], [2, 0], [0, 2], [2, 1], [1, 2], [1, 1], [1, 0], [0, 1], [0, 0]])))
        if rng.random() < 0.5:
            act.append(dict(k="assign", e=e + 1, c=0, m=[0, 0]))
        for _ in range(rng.randint(1, 2)):
            act.append(dict(k="speed", e=e + 1, tv=rng.choice([0, 2, 6, 12]) * M, T=rng.choice([0, 0, 8, 16, 32])))
        for _ in range(rng.randint(1, 2)):
            act.append(dict(k="side", e=e + 1, y=ent[e]["y0"] + rng.choice([-4, -2, 0, 2, 4]) * M // 4))
    for a in act:
        a.setdefault("c", 0), a.setdefault("m", [0, 0]), a.setdefault("tv", 0), a.setdefault("T", 0), a.setdefault("y", 0)
    act.sort(key=lambda a: ("assign", "activate", "side", "speed").index(a["k"]))
    ops = [dict(o="init", g=0, dt=0, rep=0, rx=0, ry=0)]
    once = set()
    for k in range(rng.randint(16, 32)):
        g = rng.randint(1, len(act)) if rng.random() < 0.55 else 0
        if g and act[g - 1]["k"] == "assign":       # whether such an action ends is left open, so it is started only once
            g = 0 if g in once else g
            once.add(g)
        ops.append(dict(o="step", g=g, dt=rng.choice([1, 2, 4, 4, 8]), rep=0, rx=0, ry=0))
    case = dict(sc=dict(minor=minor, ent=ent, ctrl=ctrl, act=act), ops=ops)
    reports(case, rng)
    return case


def reports(case, rng):
    """reports of positions of entities that are, per the specification, overridden on both domains before and after the frame: followed with a copy of the rules"""
    sc = case["sc"]
    has = {e + 1: [c + 1 for c, C in enumerate(sc["ctrl"]) if C["e"] == e + 1 and C["own"]] for e in range(len(sc["ent"]))}
    on = {(c + 1, d): False for c in range(len(sc["ctrl"])) for d in (0, 1)}
    full = lambda e: all(any(on[c, d] and sc["ctrl"][c - 1]["mode"] == "ovr" for c in has[e]) for d in (0, 1))
    for op in case["ops"][1:]:
        before = {e: full(e) for e in has}
        a = sc["act"][op["g"] - 1] if op["g"] else None
        if a and a["k"] in ("assign", "activate"):
            e, c = a["e"], a["c"]
            if a["k"] == "assign":
                if c == 0:
                    for o in has[e]:
                        on[o, 0] = on[o, 1] = False
                    has[e] = []
                    c = None
                else:
                    has[e] = [o for o in has[e] if o != c] + [c]
            elif c == 0:
                c = has[e][-1] if has[e] else None
            if c in has[e]:
                riv = [o for o in has[e] if o != c and any(a["m"][d] == 2 and on[o, d] for d in (0, 1))]
                for o in riv:
                    for d in (0, 1):
                        if sc["minor"] < 3 or a["m"][d] == 2:
                            on[o, d] = False
                for d in (0, 1):
                    if a["m"][d]:
                        on[c, d] = a["m"][d] == 2
        for e in has:
            if before[e] and full(e) and rng.random() < 0.3:
                op.update(rep=e, rx=rng.choice([0, 4, 10]) * M * op["dt"] // 16, ry=sc["ent"][e - 1]["y0"] + rng.choice([-1, 0, 1]) * M // 2)
                break


MODE = {"ovr": "override", "add": "additive"}
SW = ["", "false", "true"]


def controller(c, C):
    return '<Controller name="c%d"><Properties><Property name="esminiController" value="ExternalController"/><Property name="mode" value="%s"/></Properties></Controller>' % (c, MODE[C["mode"]])


def wrapped(sc, c, C):
    return '<ObjectController name="c%d">%s</ObjectController>' % (c, controller(c, C)) if sc["minor"] >= 3 else controller(c, C)


def action(sc, a):
    at = lambda names: "".join(' %s="%s"' % (n, SW[a["m"][d]]) for d, n in enumerate(names) if a["m"][d])
    if a["k"] == "speed":
        return osc.speed(a["tv"] / M, "step" if a["T"] == 0 else "linear", "time", a["T"] / 16)
    if a["k"] == "side":
        lane = sc["ent"][a["e"] - 1]["y0"] / M
        return ('<PrivateAction><LateralAction><LaneOffsetAction continuous="false"><LaneOffsetActionDynamics maxLateralAcc="1" dynamicsShape="step"/>'
                '<LaneOffsetTarget><AbsoluteTargetLaneOffset value="%r"/></LaneOffsetTarget></LaneOffsetAction></LateralAction></PrivateAction>') % (a["y"] / M - lane)
    if a["k"] == "assign":
        if a["c"] == 0:
            d = '<Controller name="none"><Properties><Property name="esminiController" value="DefaultController"/></Properties></Controller>'
            body = '<ObjectController name="none">%s</ObjectController>' % d if sc["minor"] >= 3 else d
        else:
            body = wrapped(sc, a["c"], sc["ctrl"][a["c"] - 1])
        return '<PrivateAction><ControllerAction><AssignControllerAction%s>%s</AssignControllerAction></ControllerAction></PrivateAction>' % (at(("activateLongitudinal", "activateLateral")), body)
    ref = "" if a["c"] == 0 else ' %s="c%d"' % ("objectControllerRef" if sc["minor"] >= 3 else "controllerRef", a["c"])
    return '<PrivateAction><ControllerAction><ActivateControllerAction%s%s/></ControllerAction></PrivateAction>' % (at(("longitudinal", "lateral")), ref)


def xml(case):
    sc = case["sc"]
    own = lambda e: "".join('<ObjectController name="c%d">%s</ObjectController>' % (c + 1, controller(c + 1, C)) for c, C in enumerate(sc["ctrl"]) if C["e"] == e and C["own"])
    ents = [("V%d" % (i + 1), osc.veh("c%d" % i) + own(i + 1)) for i, e in enumerate(sc["ent"])]
    init = {"V%d" % (i + 1): osc.teleport_lane(round((e["y0"] / M - 2) / 4), e["x0"] / M) + osc.speed(e["v0"] / M) for i, e in enumerate(sc["ent"])}
    gs = "".join(osc.group("G%d" % i, [osc.event("E%d" % (i + 1), action(sc, a), osc.trigger(osc.varcond("go", i + 1)), n=99)], ["V%d" % a["e"]]) for i, a in enumerate(sc["act"]))
    return osc.scenario(ents, init, osc.act("A", [gs]), variables=osc.intvar("go"), road="r.xodr", minor=sc["minor"])


def job(case, emit):
    L = esm.load()
    L.SE_SetOptionPersistent("disable_stdout")
    L.vf_register_early(None)
    open("s.xosc", "w").write(xml(case))
    open("r.xodr", "w").write(road())
    if L.SE_Init("s.xosc", 0, 0, 0, 0) != 0:
        emit([BAD])
        return
    run = [0] * len(case["sc"]["act"])
    for op in case["ops"]:
        if op["o"] == "step":
            if op["rep"]:
                L.SE_ReportObjectPosXYH(op["rep"] - 1, ob[op["rep"] - 1]["x"] + op["rx"] / M, op["ry"] / M, 0.0)
            L.SE_SetVariableInt("go", op["g"])
            L.SE_StepDT(op["dt"] / 16)
        for e in L.vf_drain():
            if e[0] == "e" and e[2] == 6 and e[4].startswith("E"):
                i = int(e[4][1:]) - 1
                run[i] = int(e[3] == 2 and case["sc"]["act"][i]["k"] != "assign")
        ob = L.vf_objs()
        emit([units(o["x"]) for o in ob] + [units(o["y"]) for o in ob] + [units(o["speed"]) for o in ob] + [int(o["ctrl"] == 1) for o in ob] + run)
    L.SE_Close()


def run(wd):
    def f(cases):
        return [(rc, dict(sc=c["sc"], ops=c["ops"], obs=lines)) for c, (rc, lines) in zip(cases, esm.run(job, cases, wd))]
    return f


def check(prop, tier):
    chk = vf.Check(prop, tier)
    quick = tier == "quick"
    vf.build()
    with vf.Scratch() as wd:
        for minor in (2, 3):
            vf.model(chk, "ControlMC", INV, wd, "CONSTANTS Depth = %d Minor = %d" % (4 if quick else 5, minor), timeout=3000)
        rng = random.Random("%s-%d" % (prop, vf.seed()))
        for b in range(1 if quick else 10):
            cases = [gen(rng) for _ in range(600)]
            runs, bad = vf.conform(chk, "ControlTrace", cases, run(wd), wd, "controllers", describe=lambda c: dict(case=c, xosc=xml(c), xodr=road()))
            chk.sample(dict(scenario=cases[0]["sc"], operations=cases[0]["ops"][:4], results=runs[0][1]["obs"][:4]))
            if bad:
                break
    chk.assum = ["controllers of the external kind, longitudinal and lateral domain, on a straight road", "positions are reported for entities overridden on both domains", "frame times are multiples of 1/16 s"]
    return chk.finish()
