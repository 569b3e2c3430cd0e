"""P22: lights, overrides, visibility and traffic signals (Lights.tla)."""
import random
import vf, esm, osc
from p_motion import units, BAD
from p_traj import road

INV = ["OneOwner", "Untouched", "NotOthers", "AtOnce", "OneIndicator", "Dark", "Blinks", "Reached", "InTime", "Between", "Kept", "Limited"]
TYPES = "daytimeRunningLights lowBeam highBeam fogLights fogLightsFront fogLightsRear brakeLights warningLights indicatorLeft indicatorRight reversingLights tailLights licensePlateIllumination specialPurposeLights".split()
LAMP = ["unknown", "other", "off", "on", "flashing", "counting", "broken"]
OVER = ["Throttle", "Brake", "Clutch", "ParkingBrake", "SteeringWheel", "Gear"]
COLORS = ["", "", "", '<Color colorType="red"/>', '<Color colorType="blue"/>', '<Color colorType="green"/>', '<Color colorType="other"><ColorRgb red="0.5" green="0" blue="0"/></Color>',
          '<Color colorType="other"><ColorRgb red="0" green="0.7" blue="0"/></Color>', '<Color colorType="other"><ColorRgb red="0" green="0" blue="0.4"/></Color>',
          '<Color colorType="other"><ColorCmyk cyan="0" magenta="1" yellow="1" key="0.2"/></Color>']
SIGS = {3: "1000001", 2: "1000002"}


def clash(t, u):
    return t == u or {t, u} <= {7, 8, 9} or t == 3 and u in (4, 5) or u == 3 and t in (4, 5)


def light(rng, types):
    md = rng.choice([0, 1, 1, 2])
    on, off = rng.choice([(None, None), (4, 4), (8, 3), (2, 10), (5, 6)])
    return dict(k="light", ty=rng.choice(types), md=md, lum=rng.choice([None, None, 6000, 1, 200, 12000, 20000, 0]), T=0 if md == 2 else rng.choice([0, 0, 3, 8, 10, 16, 24]), on=on, off=off, color=rng.choice(COLORS))


def override(rng, minor):
    o = rng.randint(1, 6)
    a = dict(k="over", o=o, act=rng.randint(0, 1), val=rng.choice([-8192, -100, 0, 1000, 2048, 4096, 6000, 20000, 30000, -30000]), rate=-4096, tq=-4096, num=0, vt=0)
    if minor >= 2 and rng.random() < 0.5 and o != 6:
        a["rate"] = rng.choice([0, 2048, 12000])
    if o == 5 and minor >= 2 and rng.random() < 0.5:
        a["tq"] = rng.choice([0, 4096, 9000])
    if o in (2, 4):
        a["vt"] = rng.choice([0, 1]) if minor >= 2 else 0
    if o == 6:
        a["vt"] = rng.choice([0, 1]) if minor >= 2 else 0
        a["num"] = rng.choice([-1, 0, 1, 2]) if a["vt"] else rng.choice([-1, 0, 1, 3, 5])
        a["val"] = 0
    return a


def one(rng, sc, types):
    r = rng.random()
    if r < 0.6:
        return light(rng, types)
    if r < 0.8:
        return override(rng, sc["minor"])
    if r < 0.87 or not sc["sig"]:
        return dict(k="vis", mask=rng.randint(0, 7))
    s = rng.randint(1, len(sc["sig"]))
    return dict(k="sig", sig=s, st=rng.choice(sc["states"][s - 1]))


def gen(rng):
    ne = rng.randint(1, 2)
    sc = dict(minor=rng.choice([1, 2, 3]), ne=ne, dt=rng.choice([1, 2, 2, 3, 4, 5, 8]), sig=[rng.choice([2, 3]) for _ in range(rng.choice([0, 1, 1, 2]))])
    sc["states"] = [[[rng.choice([0, 1, 2, 3, 3, 4, 5, 6]) for _ in range(n)] for _ in range(3)] for n in sc["sig"]]
    for st in sc["states"]:
        for x in st:
            if all(v == 2 for v in x):
                x[0] = 3
    # few light types per case so that they meet
    types = rng.choice([[7, 8, 9], [8, 9], [3, 4, 5], [7, 8, 9, 3, 4, 5], [0, 1, 2, 6, 10, 11, 12, 13], list(range(14))])
    acts = []
    for e in range(1, ne + 1):
        used = []
        for _ in range(rng.choice([0, 0, 1, 2])):
            a = one(rng, dict(sc, sig=[]), types)
            if a["k"] == "light" and any(clash(a["ty"], u) for u in used):
                continue
            if a["k"] == "light":
                used.append(a["ty"])
                if a["md"] == 2:
                    a["md"] = 1
                a["T"] = 0
            acts.append(dict(a, ev=0, e=e))
    nev = rng.randint(4, 9)
    for g in range(1, nev + 1):
        es = [rng.randint(1, ne)] if rng.random() < 0.7 else list(range(1, ne + 1))
        used = []
        for _ in range(rng.choice([1, 1, 1, 2])):
            a = one(rng, sc, types)
            if a["k"] == "light":
                if any(clash(a["ty"], u) for u in used):
                    continue
                used.append(a["ty"])
            if a["k"] == "over" and any(b["k"] == "over" and b["ev"] == g for b in acts):
                continue
            if a["k"] == "sig":
                acts.append(dict(a, ev=g, e=0))
            else:
                acts += [dict(a, ev=g, e=e) for e in es]
        if not any(a["ev"] == g for a in acts):
            acts += [dict(k="vis", mask=g % 8, ev=g, e=e) for e in es]
    sc.update(act=acts, nev=nev, watch=[dict(sig=s + 1, st=rng.choice(sc["states"][s])) for s in range(len(sc["sig"])) for _ in range(2)])
    ops = [dict(o="init", g=0)] + [dict(o="step", g=rng.randint(1, nev) if rng.random() < 0.45 else 0) for _ in range(rng.randint(16, 36))]
    return dict(sc=sc, ops=ops)


def spec_case(case):
    sc = dict(case["sc"])
    sc["act"] = [dict(a, lum=6000 if a["lum"] is None else a["lum"], on=8 if a["on"] is None else a["on"], off=8 if a["off"] is None else a["off"]) if a["k"] == "light" else a for a in sc["act"]]
    return sc


def text(st):
    return ";".join(LAMP[x] for x in st)


def action(sc, a):
    if a["k"] == "light":
        at = ' mode="%s"' % ("off", "on", "flashing")[a["md"]]
        if a["lum"] is not None:
            at += ' luminousIntensity="%d"' % a["lum"]
        if a["on"] is not None:
            at += ' flashingOnDuration="%r" flashingOffDuration="%r"' % (a["on"] / 16, a["off"] / 16)
        return ('<PrivateAction><AppearanceAction><LightStateAction transitionTime="%r"><LightType><VehicleLight vehicleLightType="%s"/></LightType><LightState%s>%s</LightState></LightStateAction></AppearanceAction></PrivateAction>'
                % (a["T"] / 16, TYPES[a["ty"]], at, a["color"]))
    if a["k"] == "over":
        n = OVER[a["o"] - 1]
        r = "" if a["rate"] == -4096 else ' maxRate="%r"' % (a["rate"] / 4096)
        head = '<%s active="%s"' % (n, "true" if a["act"] else "false")
        if a["o"] in (2, 4) and sc["minor"] >= 2:
            x = '%s><Brake%s value="%r"%s/></%s>' % (head, ("Percent", "Force")[a["vt"]], a["val"] / 4096, r, n)
        elif a["o"] == 6:
            x = '%s number="%d"/>' % (head, a["num"]) if sc["minor"] < 2 else '%s>%s</Gear>' % (head, '<AutomaticGear gear="%s"/>' % {-1: "r", 0: "n", 1: "p", 2: "d"}[a["num"]] if a["vt"] else '<ManualGear number="%d"/>' % a["num"])
        else:
            tq = "" if a["tq"] == -4096 else ' maxTorque="%r"' % (a["tq"] / 4096)
            x = '%s value="%r"%s%s/>' % (head, a["val"] / 4096, r, tq)
        return '<PrivateAction><ControllerAction><OverrideControllerValueAction>%s</OverrideControllerValueAction></ControllerAction></PrivateAction>' % x
    if a["k"] == "vis":
        return '<PrivateAction><VisibilityAction%s/></PrivateAction>' % "".join(' %s="%s"' % (n, "true" if a["mask"] & b else "false") for n, b in (("graphics", 1), ("traffic", 2), ("sensors", 4)))
    return '<GlobalAction><InfrastructureAction><TrafficSignalAction><TrafficSignalStateAction name="%d" state="%s"/></TrafficSignalAction></InfrastructureAction></GlobalAction>' % (10 + a["sig"], text(a["st"]))


def xodr(sc):
    sg = "".join('<signal s="%d" t="-8" id="%d" name="n%d" dynamic="yes" orientation="+" zOffset="3" type="%s" country="OpenDRIVE" subtype="-1" height="0.9" width="0.3" hOffset="0" pitch="0" roll="0"/>' % (100 + 10 * i, 11 + i, i, SIGS[n])
                 for i, n in enumerate(sc["sig"]))
    return road().replace("</lanes>", "</lanes><signals>%s</signals>" % sg)


def xml(case):
    sc = case["sc"]
    ents = [("V%d" % e, osc.veh("c%d" % e)) for e in range(1, sc["ne"] + 1)]
    init = {"V%d" % e: osc.teleport_lane(-1, 100.0 * e) + osc.speed(5.0) + "".join(action(sc, a) for a in sc["act"] if a["ev"] == 0 and a["e"] == e) for e in range(1, sc["ne"] + 1)}
    ws = "".join(osc.group("W%d" % i, [osc.event("W%d" % (i + 1), '<GlobalAction><VariableAction variableRef="seen"><SetAction value="1"/></VariableAction></GlobalAction>', osc.trigger(osc.cond('<TrafficSignalCondition name="%d" state="%s"/>' % (10 + w["sig"], text(w["st"])))), n=999)], ["V1"]) for i, w in enumerate(sc["watch"]))
    gs = ""
    for g in range(1, sc["nev"] + 1):
        mine = [a for a in sc["act"] if a["ev"] == g]
        es = sorted({a["e"] for a in mine if a["e"]}) or [1]
        xs = []
        for a in mine:
            x = action(sc, a)
            if x not in xs or a["e"] == es[0]:
                xs.append(x)
        gs += osc.group("G%d" % g, [osc.event("E%d" % g, xs, osc.trigger(osc.varcond("go", g)), n=99)], ["V%d" % e for e in es])
    return osc.scenario(ents, init, osc.act("A", [ws + gs]), variables=osc.intvar("go") + osc.intvar("seen"), road="r.xodr", minor=sc["minor"])


def shown(L, ne):
    r = []
    for e in range(ne):
        ls = [L.vf_light(e, t) for t in range(14)]
        o = L.vf_overrides(e)
        r += [l["mode"] for l in ls] + [l["on"] for l in ls]
        for n in ("throttle", "brake", "clutch", "parking", "steering", "gear"):
            g = lambda k, d: units(o[n + k]) if n + k in o else d
            r += [o[n], g("_v", 0), g("_r", -4096), g("_q", -4096), o.get(n + "_n", 0), o.get(n + "_t", 0)]
        r += [L.vf_obj(e)["vis"]]
    for _, m in sorted(L.vf_lamps()):
        r += m
    return r


def job(case, emit):
    sc = case["sc"]
    L = esm.load()
    L.SE_SetOptionPersistent("disable_stdout")
    L.vf_register_early(None)
    open("s.xosc", "w").write(xml(case))
    open("r.xodr", "w").write(xodr(sc))
    if L.SE_Init("s.xosc", 0, 0, 0, 0) != 0:
        emit([BAD])
        return
    run = [0] * sc["nev"]
    for op in case["ops"]:
        w = [0] * len(sc["watch"])
        if op["o"] == "step":
            L.SE_SetVariableInt("go", op["g"])
            L.SE_StepDT(sc["dt"] / 16)
        for e in L.vf_drain():
            if e[0] == "e" and e[2] == 6:
                i = int(e[4][1:]) - 1
                if e[4][0] == "E":
                    run[i] = int(e[3] == 2)
                elif e[3] == 2 and op["o"] == "step":
                    w[i] += 1
        emit(shown(L, sc["ne"]) + w + run)
    L.SE_Close()


def run(wd):
    def f(cases):
        return [(rc, dict(sc=spec_case(c), ops=c["ops"], obs=lines)) for c, (rc, lines) in zip(cases, esm.run(job, cases, wd))]
    return f


def check(prop, tier):
    chk = vf.Check(prop, tier)
    quick = tier == "quick"
    vf.build()
    with vf.Scratch() as wd:
        for fam in (1, 2):
            vf.model(chk, "LightsMC", INV, wd, "CONSTANTS Depth = %d Fam = %d" % (5 if quick else 7, fam), timeout=3000)
        rng = random.Random("%s-%d" % (prop, vf.seed()))
        for b in range(1 if quick else 10):
            cases = [gen(rng) for _ in range(500)]
            runs, bad = vf.conform(chk, "LightsTrace", cases, run(wd), wd, "lights", describe=lambda c: dict(case=c, xosc=xml(c), xodr=xodr(c["sc"])))
            chk.sample(dict(scenario=cases[0]["sc"], operations=cases[0]["ops"][:4], results=runs[0][1]["obs"][:2]))
            if bad:
                break
    chk.assum = ["the frame time is constant during a run, flashing without a transition time", "colours are not black", "no two actions of an event exclude each other"]
    return chk.finish()
