"""P14: lane changes and lane offsets (Lateral.tla)."""
import math, random
import vf, esm, osc
from p_motion import units, BAD

M = 4096
INV = ["DrivenDistance", "OnlyByAction", "Reached", "Between", "OneEach", "BackAgain", "Independent"]


def gen(rng):
    wl = [rng.choice([12, 14, 16, 16]) * M // 4 for _ in range(3)]
    wr = [rng.choice([12, 14, 16, 16]) * M // 4 for _ in range(3)]
    ent = []
    for i in range(rng.randint(1, 3)):
        lane = rng.choice([-3, -2, -1, 1, 2, 3])
        ent.append(dict(s0=(1000 + 300 * i) * M, lane=lane, off=rng.choice([0, 0, 0, 1, -1]) * M // 2, v0=rng.choice([0, 4, 10, 10, 15, 20, -4]) * M, dir=1 if lane < 0 else -1))
    act = []
    for _ in range(rng.randint(2, 7)):
        e = rng.randint(1, len(ent))
        k = rng.choice(["change", "change", "change", "offset", "offset", "speed"])
        shape = rng.choice(["linear", "cubic", "sin", "step"])
        ref = rng.randint(1, len(ent))
        if k == "speed":
            act.append(dict(k=k, e=e, tv=rng.choice([0, 2, 8, 10, 16, 20, -5]) * M))
        elif k == "change":
            tk = rng.choice(["abs", "rel"])
            dim = rng.choice(["time", "time", "rate", "dist"])
            x = 0 if shape == "step" else {"time": lambda: rng.choice([8, 16, 24, 32, 40, 48, 64, 12]) * 4096, "rate": lambda: rng.choice([1, 2, 3, 4]) * M, "dist": lambda: rng.choice([10, 20, 33, 50]) * M}[dim]()
            if shape != "step" and rng.random() < 0.05:
                dim, x = "time", 0
            act.append(dict(k=k, e=e, shape=shape, dim=dim, x=x, tk=tk, lane=rng.choice([-3, -2, -1, 1, 2, 3]) if tk == "abs" else rng.choice([-2, -1, 0, 1, 2]), ref=ref, off=rng.choice([0, 0, 0, 1, -1]) * M // 2))
        else:
            tk = rng.choice(["abs", "rel"])
            if tk == "rel" and ref == e and rng.random() < 0.5:
                tk = "abs"
            act.append(dict(k=k, e=e, shape=shape, acc=rng.choice([8, 8, 16, 24, 40, 64]), tk=tk, tv=rng.choice([0, 1, -1, 2, -2, 3, -3]) * M // 2, ref=ref))
    ops = [dict(o="init", g=0, dt=0)]
    for _ in range(rng.randint(12, 26)):
        ops.append(dict(o="step", g=rng.randint(1, len(act)) if rng.random() < 0.3 else 0, dt=rng.choice([1, 1, 2, 2, 4, 4, 8])))
    act.sort(key=lambda a: a["k"] != "speed")
    return dict(sc=dict(w=dict(l=wl, r=wr), ent=ent, act=act), ops=ops)


def centre(sc, lane):
    w = sc["w"]["l"] if lane > 0 else sc["w"]["r"]
    return (1 if lane > 0 else -1) * (sum(w[:abs(lane)]) - w[abs(lane) - 1] // 2)


def road(sc):
    ln = lambda i, w: '<lane id="%d" type="driving" level="false"><width sOffset="0" a="%r" b="0" c="0" d="0"/></lane>' % (i, w / M)
    return ('<?xml version="1.0"?><OpenDRIVE><header revMajor="1" revMinor="5" name="" version="1" date="" north="0" south="0" east="0" west="0"/>'
            '<road name="" length="5000" id="1" junction="-1"><planView><geometry s="0" x="0" y="0" hdg="0" length="5000"><line/></geometry></planView><elevationProfile/><lateralProfile/>'
            '<lanes><laneSection s="0"><left>%s</left><center><lane id="0" type="none" level="false"/></center><right>%s</right></laneSection></lanes></road></OpenDRIVE>') % (
        "".join(ln(i, sc["w"]["l"][i - 1]) for i in (3, 2, 1)), "".join(ln(-i, sc["w"]["r"][i - 1]) for i in (1, 2, 3)))


SH = {"sin": "sinusoidal"}


def action(a):
    if a["k"] == "speed":
        return osc.speed(a["tv"] / M)
    if a["k"] == "change":
        tgt = '<AbsoluteTargetLane value="%d"/>' % a["lane"] if a["tk"] == "abs" else '<RelativeTargetLane entityRef="V%d" value="%d"/>' % (a["ref"], a["lane"])
        return ('<PrivateAction><LateralAction><LaneChangeAction targetLaneOffset="%r"><LaneChangeActionDynamics dynamicsShape="%s" value="%r" dynamicsDimension="%s"/>'
                '<LaneChangeTarget>%s</LaneChangeTarget></LaneChangeAction></LateralAction></PrivateAction>') % (
            a["off"] / M, SH.get(a["shape"], a["shape"]), a["x"] / (65536 if a["dim"] == "time" else M), {"dist": "distance"}.get(a["dim"], a["dim"]), tgt)
    tgt = '<AbsoluteTargetLaneOffset value="%r"/>' % (a["tv"] / M) if a["tk"] == "abs" else '<RelativeTargetLaneOffset entityRef="V%d" value="%r"/>' % (a["ref"], a["tv"] / M)
    acc = "" if a["acc"] == 8 else 'maxLateralAcc="%r"' % (a["acc"] / 16)
    return '<PrivateAction><LateralAction><LaneOffsetAction continuous="false"><LaneOffsetActionDynamics %s dynamicsShape="%s"/><LaneOffsetTarget>%s</LaneOffsetTarget></LaneOffsetAction></LateralAction></PrivateAction>' % (
        acc, SH.get(a["shape"], a["shape"]), tgt)


def xml(case):
    sc = case["sc"]
    ents = [("V%d" % (i + 1), osc.veh("c%d" % i)) for i, e in enumerate(sc["ent"])]
    init = {"V%d" % (i + 1): osc.teleport_lane(e["lane"], e["s0"] / M, e["off"] / M) + osc.speed(e["v0"] / M) for i, e in enumerate(sc["ent"])}
    gs = "".join(osc.group("G%d" % i, [osc.event("E%d" % (i + 1), action(a), osc.trigger(osc.varcond("go", i + 1)), n=99)], ["V%d" % a["e"]]) for i, a in enumerate(sc["act"]))
    return osc.scenario(ents, init, osc.act("A", [gs]), variables=osc.intvar("go"), road="r.xodr")


def job(case, emit):
    L = esm.load()
    L.SE_SetOptionPersistent("disable_stdout")
    L.vf_register_early(None)
    open("s.xosc", "w").write(xml(case))
    open("r.xodr", "w").write(road(case["sc"]))
    if L.SE_Init("s.xosc", 0, 0, 0, 0) != 0:
        emit([BAD])
        return
    run = [0] * len(case["sc"]["act"])
    for op in case["ops"]:
        if op["o"] == "step":
            L.SE_SetVariableInt("go", op["g"])
            L.SE_StepDT(op["dt"] / 16)
        for e in L.vf_drain():
            if e[0] == "e" and e[2] == 6 and e[4].startswith("E"):
                run[int(e[4][1:]) - 1] = int(e[3] == 2)
        ob = L.vf_objs()
        emit([units(o["speed"]) for o in ob] + [units(o["s"]) for o in ob] + [units(o["tt"]) for o in ob] + [units(math.sin(o["h"])) if abs(math.sin(o["h"])) > 1e-4 else 0 for o in ob] + [o["lane"] for o in ob] + run)
    L.SE_Close()


def run(wd):
    def f(cases):
        return [(rc, dict(sc=c["sc"], ops=c["ops"], obs=lines)) for c, (rc, lines) in zip(cases, esm.run(job, cases, wd))]
    return f


def check(prop, tier):
    chk = vf.Check(prop, tier)
    quick = tier == "quick"
    vf.build()
    with vf.Scratch() as wd:
        vf.model(chk, "LateralMC", INV, wd, "CONSTANT Depth = %d" % (3 if quick else 4), timeout=3000)
        rng = random.Random("%s-%d" % (prop, vf.seed()))
        for b in range(1 if quick else 10):
            cases = [gen(rng) for _ in range(500)]
            runs, bad = vf.conform(chk, "LateralTrace", cases, run(wd), wd, "lateral motion", describe=lambda c: dict(case=c, xosc=xml(c), xodr=road(c["sc"])))
            chk.sample(dict(entities=cases[0]["sc"]["ent"], actions=cases[0]["sc"]["act"][:2], operations=cases[0]["ops"][:4], results=runs[0][1]["obs"][:4]))
            if bad:
                break
    chk.assum = ["straight road, constant lane widths, default controller", "frame times are multiples of 1/16 s; positions are compared within 1/100 m per frame"]
    return chk.finish()
