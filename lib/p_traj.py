"""P20: trajectories (Traj.tla)."""
import math, random
import vf, esm, osc
from p_motion import units, BAD

M = 4096
INV = ["OnLine", "AsFarAsSpeed", "OnTime", "NeverBack", "EndsAtEnd", "HeadingTurns", "Independent"]
DIRS = [(1, 0), (0, 1), (-1, 0), (0, -1), (.8, .6), (.6, .8), (-.8, .6), (-.6, .8), (.8, -.6), (.6, -.8), (-.8, -.6), (-.6, -.8)]


def verts(rng, rel):
    n = rng.choice([2, 2, 3, 3, 4, 5])
    x, y = (rng.randint(-10, 10), rng.randint(-6, 6)) if rel else (rng.randint(250, 500), rng.randint(-10, 10))
    t = rng.choice([0, 0, 0, 64, 160])
    p = [[x, y, t]]
    d = rng.choice(DIRS if rng.random() < 0.5 else DIRS[:4])
    for i in range(n - 1):
        if 0 < i < n - 2 and rng.random() < 0.12:
            k = 0       # stands still
        else:
            if i and rng.random() < 0.75:
                d2 = rng.choice(DIRS)
                if abs(d2[0] + d[0]) + abs(d2[1] + d[1]) > .1 or rng.random() < 0.1:
                    d = d2
            k = rng.choice([1, 2, 3, 5, 5, 10, 20])
            if d[0] * d[1] != 0:
                k = max(5, k // 5 * 5)
        x, y = x + round(d[0] * k), y + round(d[1] * k)
        t += rng.choice([80, 96, 160]) if k == 0 else rng.choice([32, 48, 64, 64, 96, 128, 160, 208])
        p.append([x, y, t])
    return p


def gen(rng):
    ent = []
    for i in range(rng.randint(1, 2)):
        lane = rng.choice([-3, -2, -1, 1])
        ent.append(dict(x0=(100 + 300 * i) * M, y0=int((lane + (.5 if lane < 0 else -.5)) * 4) * M, h0=0 if lane < 0 else 32768, v0=rng.choice([0, 2, 5, 10, 10, 20, -4]) * M))
    act = []
    for _ in range(rng.randint(1, 5)):
        e = rng.randint(1, len(ent))
        if rng.random() < 0.25:
            act.append(dict(k="speed", e=e, tv=rng.choice([0, 2, 8, 10, 16, -5, -2]) * M))
            continue
        rel = rng.randint(1, len(ent)) if rng.random() < 0.2 else 0
        p = verts(rng, rel)
        hk = int(rng.random() < 0.35)
        base = rng.choice([0, 0, 1, 2])
        tm = rng.choice(["none", "none", "rel", "rel", "abs"])
        mode = rng.choice(["pos", "fol"])
        q = []
        for i, (x, y, t) in enumerate(p):
            if hk:
                j = max(1, min(i + 1, len(p) - 1))
                dx, dy = p[j][0] - p[j - 1][0], p[j][1] - p[j - 1][1]
                h = head(dx, dy) if (dx or dy) else 0
                if base == 1:
                    h = (h + 32768) % 65536
                elif base == 2 and rng.random() < 0.5:
                    h = rng.choice([head(*d) for d in DIRS])
                if not q and abs(abs((h - head(dx, dy) + 32768) % 65536 - 32768) - 16384) < 1000:
                    h = head(dx, dy)        # straight across: neither forward nor backward
                if q and (q[-1]["h"] - h) % 65536 == 32768:
                    h = q[-1]["h"]
            else:
                h = 0
            q.append(dict(x=x * M, y=y * M, h=h, t=t * 64))
        L = sum(math.hypot(b[0] - a[0], b[1] - a[1]) for a, b in zip(p, p[1:]))
        ido = 0
        if rng.random() < 0.25 and not (hk and base == 2) and (mode == "pos" or tm == "none"):
            ido = rng.choice([1, 2, int(L) // 2, int(L) // 3]) * M
            if ido >= int(L) * M:
                ido = 0
        act.append(dict(k="traj", e=e, p=q, rel=rel, hk=hk, tm=tm, scale=rng.choice([4, 4, 4, 2, 8, 1]), off=rng.choice([0, 0, 0, 16, -32, 64]) * 64 if tm != "none" else 0, mode=mode, ido=ido))
    ops = [dict(o="init", g=0, dt=0)]
    done = set()
    for k in range(rng.randint(14, 30)):
        g = rng.randint(1, len(act)) if rng.random() < (0.6 if k == 0 else 0.2) else 0
        if g and act[g - 1]["k"] == "traj" and act[g - 1]["rel"]:
            g = 0 if g in done else g
            done.add(g)
        ops.append(dict(o="step", g=g, dt=rng.choice([1, 1, 2, 4, 4, 4, 8])))
    order = sorted(range(len(act)), key=lambda a: act[a]["k"] != "speed")
    new = {o + 1: i + 1 for i, o in enumerate(order)}
    for op in ops:
        op["g"] = new.get(op["g"], 0)
    return dict(sc=dict(ent=ent, act=[act[o] for o in order]), ops=ops)


def head(dx, dy):
    q = 0 if dy == 0 else 6712 if abs(dx) > abs(dy) else 9672
    if dx == 0:
        return 16384 if dy > 0 else 49152
    if dx > 0:
        return q if dy >= 0 else 65536 - q
    return 32768 - q if dy >= 0 else 32768 + q


def exact(h):
    """radians of a heading of a 3-4-5 direction"""
    for d in DIRS:
        if head(*d) == h:
            return math.atan2(d[1], d[0])
    raise ValueError(h)


def road():
    ln = lambda i: '<lane id="%d" type="driving" level="false"><width sOffset="0" a="4" b="0" c="0" d="0"/></lane>' % i
    return ('<?xml version="1.0"?><OpenDRIVE><header revMajor="1" revMinor="5" name="" version="1" date="" north="0" south="0" east="0" west="0"/>'
            '<road name="" length="1000" id="1" junction="-1"><planView><geometry s="0" x="0" y="0" hdg="0" length="1000"><line/></geometry></planView><elevationProfile/><lateralProfile/>'
            '<lanes><laneSection s="0"><left>%s</left><center><lane id="0" type="none" level="false"/></center><right>%s</right></laneSection></lanes></road></OpenDRIVE>') % (
        "".join(ln(i) for i in (3, 2, 1)), "".join(ln(-i) for i in (1, 2, 3)))


def action(a):
    if a["k"] == "speed":
        return osc.speed(a["tv"] / M)
    vs = ""
    for p in a["p"]:
        if a["rel"]:
            o = '<Orientation type="absolute" h="%r"/>' % exact(p["h"]) if a["hk"] else ""
            pos = '<RelativeWorldPosition entityRef="V%d" dx="%r" dy="%r">%s</RelativeWorldPosition>' % (a["rel"], p["x"] / M, p["y"] / M, o)
        else:
            pos = '<WorldPosition x="%r" y="%r" %s/>' % (p["x"] / M, p["y"] / M, 'h="%r"' % exact(p["h"]) if a["hk"] else "")
        vs += '<Vertex time="%r"><Position>%s</Position></Vertex>' % (p["t"] / M, pos)
    tr = "<None/>" if a["tm"] == "none" else '<Timing domainAbsoluteRelative="%s" scale="%r" offset="%r"/>' % ({"rel": "relative", "abs": "absolute"}[a["tm"]], a["scale"] / 4, a["off"] / M)
    return ('<PrivateAction><RoutingAction><FollowTrajectoryAction initialDistanceOffset="%r"><TrajectoryRef><Trajectory name="T" closed="false"><Shape><Polyline>%s</Polyline></Shape></Trajectory></TrajectoryRef>'
            '<TimeReference>%s</TimeReference><TrajectoryFollowingMode followingMode="%s"/></FollowTrajectoryAction></RoutingAction></PrivateAction>') % (a["ido"] / M, vs, tr, {"pos": "position", "fol": "follow"}[a["mode"]])


def xml(case):
    sc = case["sc"]
    ents = [("V%d" % (i + 1), osc.veh("c%d" % i)) for i, e in enumerate(sc["ent"])]
    init = {"V%d" % (i + 1): osc.teleport_lane(round((e["y0"] / M - (2 if e["y0"] < 0 else -2)) / 4), e["x0"] / M) + osc.speed(e["v0"] / M) for i, e in enumerate(sc["ent"])}
    gs = "".join(osc.group("G%d" % i, [osc.event("E%d" % (i + 1), action(a), osc.trigger(osc.varcond("go", i + 1)), n=99)], ["V%d" % a["e"]]) for i, a in enumerate(sc["act"]))
    return osc.scenario(ents, init, osc.act("A", [gs]), variables=osc.intvar("go"), road="r.xodr")


def job(case, emit):
    L = esm.load()
    L.SE_SetOptionPersistent("disable_stdout")
    L.vf_register_early(None)
    open("s.xosc", "w").write(xml(case))
    open("r.xodr", "w").write(road())
    if L.SE_Init("s.xosc", 0, 0, 0, 0) != 0:
        emit([BAD])
        return
    run = [0] * len(case["sc"]["act"])
    for op in case["ops"]:
        if op["o"] == "step":
            L.SE_SetVariableInt("go", op["g"])
            L.SE_StepDT(op["dt"] / 16)
        for e in L.vf_drain():
            if e[0] == "e" and e[2] == 6 and e[4].startswith("E"):
                run[int(e[4][1:]) - 1] = int(e[3] == 2)
        ob = L.vf_objs()
        emit([units(o["x"]) for o in ob] + [units(o["y"]) for o in ob] + [round(o["h"] / (2 * math.pi) * 65536) % 65536 for o in ob] + [units(o["speed"]) for o in ob] + run)
    L.SE_Close()


def run(wd):
    def f(cases):
        return [(rc, dict(sc=c["sc"], ops=c["ops"], obs=lines)) for c, (rc, lines) in zip(cases, esm.run(job, cases, wd))]
    return f


def check(prop, tier):
    chk = vf.Check(prop, tier)
    quick = tier == "quick"
    vf.build()
    with vf.Scratch() as wd:
        vf.model(chk, "TrajMC", INV, wd, "CONSTANT Depth = %d" % (3 if quick else 5), timeout=3000)
        rng = random.Random("%s-%d" % (prop, vf.seed()))
        for b in range(1 if quick else 10):
            cases = [gen(rng) for _ in range(600)]
            runs, bad = vf.conform(chk, "TrajTrace", cases, run(wd), wd, "trajectory", describe=lambda c: dict(case=c, xosc=xml(c), xodr=road()))
            chk.sample(dict(entities=cases[0]["sc"]["ent"], actions=cases[0]["sc"]["act"][:1], operations=cases[0]["ops"][:4], results=runs[0][1]["obs"][:4]))
            if bad:
                break
    chk.assum = ["polylines whose segments lie along the axes or 3-4-5 directions, on a flat plane; default controller", "frame times are multiples of 1/16 s; positions are compared within 3 mm per frame"]
    return chk.finish()
