"""P25: speed profiles and distance keeping (Keep.tla)."""
import random
import vf, esm, osc
from p_motion import units, BAD

M = 4096
INV = ["Corner", "Monotone", "WithinLimits", "Kept", "AsTarget", "OnlyTheirs", "OneEach"]


def gen(rng):
    n = rng.choice([2, 2, 3])
    ent, s = [], 1500
    for i in range(n):
        ent.append(dict(s0=s * M, v0=rng.choice([0, 5, 10, 15, 20]) * M, lane=rng.choice([1, 1, 2])))
        s += rng.choice([30, 45, 60, 80])
    rng.shuffle(ent)
    act = []
    for _ in range(rng.randint(2, 5)):
        e = rng.randint(1, n)
        other = rng.choice([j + 1 for j in range(n) if j + 1 != e])
        k = rng.choice(["speed", "profile", "profile", "dist", "dist"])
        if k == "speed":
            act.append(dict(k=k, e=e, tv=rng.choice([0, 5, 8, 12, 20, -3]) * M))
        elif k == "profile":
            lim = rng.random() < 0.6
            rel = rng.random() < 0.25
            p = []
            for i in range(rng.choice([1, 1, 2, 3, 4, 5])):
                t = rng.choice([4, 8, 8, 16, 24, 32, 7]) if not lim or rng.random() < 0.7 else -1
                if i == 0 and rng.random() < 0.2:
                    t = 0
                v = rng.choice([0, 4, 8, 10, 12, 16, 20, 24, -2])
                if len(p) >= 2 and p[-1]["t"] > 0 and rng.random() < 0.3:
                    t, v = p[-1]["t"], (2 * p[-1]["v"] - p[-2]["v"]) // M
                p.append(dict(t=t, v=v * M))
            act.append(dict(k=k, e=e, ref=other if rel else 0, p=p, amax=rng.choice([2, 4, 5, 8]) * M if lim else 0, dmax=rng.choice([2, 4, 5, 8, 10]) * M if lim else 0))
        else:
            lim = rng.random() < 0.5
            gap = int(rng.random() < 0.25)
            up, dn = rng.choice([(10240, 1), (40960, 2)]), rng.choice([(10240, 1), (40960, 2)])
            act.append(dict(k=k, e=e, ref=other, gap=gap, x=rng.choice([8, 16, 24]) if gap else rng.choice([0, 5, 10, 20, 30]) * M, free=rng.random() < 0.3, side=rng.choice(["trail", "trail", "lead", "any"]), cont=rng.random() < 0.6,
                            amax=up[0] if lim else 0, dmax=dn[0] if lim else 0, cup=up[1], cdn=dn[1], jup=rng.choice([0, 0, 5, 20]) * M, jdn=rng.choice([0, 0, 5, 20]) * M, vmax=rng.choice([15, 30, 60]) * M, cs=rng.choice(["entity", "road", "lane"])))
    ops = [dict(o="init", g=0, dt=0)]
    for k in range(rng.randint(14, 30)):
        ops.append(dict(o="step", g=rng.randint(1, len(act)) if rng.random() < (0.7 if k == 0 else 0.2) else 0, dt=rng.choice([1, 1, 2, 4, 4, 8])))
    # a step speed action acts when it starts
    act = sorted(enumerate(act), key=lambda a: a[1]["k"] != "speed")
    new = {o + 1: i + 1 for i, (o, a) in enumerate(act)}
    for op in ops:
        op["g"] = new.get(op["g"], 0)
    return dict(sc=dict(dir=rng.choice([1, 1, -1]), ent=ent, act=[a for o, a in act]), ops=ops)


def action(a):
    if a["k"] == "speed":
        return osc.speed(a["tv"] / M)
    if a["k"] == "profile":
        x = '<SpeedProfileAction followingMode="position"%s>' % (' entityRef="V%d"' % a["ref"] if a["ref"] else "")
        if a["amax"]:
            x += '<DynamicConstraints maxAcceleration="%r" maxDeceleration="%r" maxSpeed="1000"/>' % (a["amax"] / M, a["dmax"] / M)
        if a["ref"]:
            x += '<EntityRef entityRef="V%d"/>' % a["ref"]
        x += "".join('<SpeedProfileEntry%s speed="%r"/>' % (' time="%r"' % (p["t"] / 16) if p["t"] >= 0 else "", p["v"] / M) for p in a["p"]) + "</SpeedProfileAction>"
    else:
        x = '<LongitudinalDistanceAction entityRef="V%d" %s="%r" freespace="%s" continuous="%s" displacement="%s" coordinateSystem="%s">' % (
            a["ref"], "timeGap" if a["gap"] else "distance", a["x"] / (16 if a["gap"] else M), str(a["free"]).lower(), str(a["cont"]).lower(),
            {"trail": "trailingReferencedEntity", "lead": "leadingReferencedEntity", "any": "any"}[a["side"]], a["cs"])
        if a["amax"]:
            x += '<DynamicConstraints maxAcceleration="%r" maxDeceleration="%r" maxSpeed="%r"%s%s/>' % (a["amax"] / M, a["dmax"] / M, a["vmax"] / M,
                ' maxAccelerationRate="%r"' % (a["jup"] / M) if a["jup"] else "", ' maxDecelerationRate="%r"' % (a["jdn"] / M) if a["jdn"] else "")
        x += "</LongitudinalDistanceAction>"
    return "<PrivateAction><LongitudinalAction>%s</LongitudinalAction></PrivateAction>" % x


def xml(case):
    sc = case["sc"]
    ents = [("V%d" % (i + 1), osc.veh("c%d" % i)) for i, e in enumerate(sc["ent"])]
    init = {"V%d" % (i + 1): osc.teleport_lane(-sc["dir"] * e["lane"], e["s0"] / M) + osc.speed(e["v0"] / M) for i, e in enumerate(sc["ent"])}
    gs = "".join(osc.group("G%d" % i, [osc.event("E%d" % (i + 1), action(a), osc.trigger(osc.varcond("go", i + 1)), n=99)], ["V%d" % a["e"]]) for i, a in enumerate(sc["act"]))
    return osc.scenario(ents, init, osc.act("A", [gs]), variables=osc.intvar("go"), minor=3)


def job(case, emit):
    L = esm.load()
    L.SE_SetOptionPersistent("disable_stdout")
    L.vf_register_early(None)
    open("s.xosc", "w").write(xml(case))
    if L.SE_Init("s.xosc", 0, 0, 0, 0) != 0:
        emit([BAD])
        return
    run = [0] * len(case["sc"]["act"])
    for op in case["ops"]:
        if op["o"] == "step":
            L.SE_SetVariableInt("go", op["g"])
            L.SE_StepDT(op["dt"] / 16)
        for e in L.vf_drain():
            if e[0] == "e" and e[2] == 6 and e[4].startswith("E"):
                run[int(e[4][1:]) - 1] = int(e[3] == 2)
        ob = L.vf_objs()
        emit([units(o["speed"]) for o in ob] + [units(o["s"]) for o in ob] + run)
    L.SE_Close()


def run(wd):
    def f(cases):
        return [(rc, dict(sc=c["sc"], ops=c["ops"], obs=lines)) for c, (rc, lines) in zip(cases, esm.run(job, cases, wd))]
    return f


def check(prop, tier):
    chk = vf.Check(prop, tier)
    quick = tier == "quick"
    vf.build()
    with vf.Scratch() as wd:
        vf.model(chk, "KeepMC", INV, wd, "CONSTANT Depth = %d" % (3 if quick else 4), timeout=3000)
        rng = random.Random("%s-%d" % (prop, vf.seed()))
        for b in range(1 if quick else 10):
            cases = [gen(rng) for _ in range(700)]
            runs, bad = vf.conform(chk, "KeepTrace", cases, run(wd), wd, "speed profiles and distance keeping", describe=lambda c: dict(case=c, xosc=xml(c)))
            chk.sample(dict(entities=cases[0]["sc"]["ent"], actions=cases[0]["sc"]["act"][:2], operations=cases[0]["ops"][:4], results=runs[0][1]["obs"][:4]))
            if bad:
                break
    chk.assum = ["straight road, default controller, entities that drive in the same direction; profiles in position mode with frames of at most 1/2 s",
                 "limits of distance keeping are chosen so that the spring is exactly representable; speeds and positions are compared within 6/1024 m(/s) per frame"]
    return chk.finish()
