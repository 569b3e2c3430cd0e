"""P18: recordings and their replay (Record.tla)."""
import ctypes as C, os, random, re, subprocess
import vf, esm, osc

INV = ["Lossless", "Within", "NothingSkipped", "ThereAndBack"]
U = 10000
BAD = -99999999
KEYS = ["x", "y", "z", "h", "p", "r", "road", "lane", "off", "tt", "s", "speed", "wa", "wr", "model", "ctrl", "cx", "cy", "cz", "w", "l", "hgt", "type", "cat", "vis"]
INTS = {"road", "lane", "model", "ctrl", "type", "cat", "vis"}
LIGHTS = ["daytimeRunningLights", "lowBeam", "highBeam", "fogLights", "fogLightsFront", "fogLightsRear", "brakeLights", "warningLights", "indicatorLeft", "indicatorRight", "reversingLights", "tailLights",
          "licensePlateIllumination", "specialPurposeLights"]
TYPES = ["", "StoryBoard", "Story", "Act", "ManeuverGroup", "Maneuver", "Event", "Action"]
STATES = ["Init", "Standby", "Running", "Complete"]


def gen(r):
    ops, objs, nid = [], {0, 1}, 2
    dts = r.choice([[100], [100], [50, 100], [62.5], [10, 20, 33.333, 100], [0, 100], [0, 20, 50, 100], [200, 50, 0], [33.333]])
    cur = r.choice([d for d in dts if d])
    t = 0
    ops.append(dict(o="frame", dt=0, g=0, ev=[]))
    lights = []
    for _ in range(r.randint(0, 3)):
        lights.append([r.choice(["V1", "V2"]), r.choice(LIGHTS), r.choice(["on", "off", "flashing"]), r.choice([0.0, 0.0, 0.15])])
    quiet = r.random() < 0.4
    ex = dict(v0=[r.choice([0, 0, 4, 10]), r.choice([0, 0, 6])], lights=lights, h=r.choice([0, 1]), still=quiet)
    poses = {}
    frames = r.randint(4, 18)
    for k in range(frames):
        ev, g = [], 0
        if r.random() < (0.25 if quiet else 0.6):
            for _ in range(r.randint(1, 2)):
                q = r.random()
                if q < 0.2 and nid < 6:
                    ev.append(["add", nid, r.choice([0, 1]), r.choice([1, 1, 2, 3]), r.randint(0, 3), r.choice([-1, 3])])
                    objs.add(nid)
                    nid += 1
                elif q < 0.3 and len(objs) > 2:
                    i = r.choice([o for o in objs if o > 1])
                    ev.append(["del", i])
                    objs.discard(i)
                elif q < 0.4 and len(objs) > 2:
                    # only one coordinate differs from the pose before
                    i = r.choice([o for o in objs if o > 1])
                    at = poses.setdefault(i, [r.randint(100, 3000) / 4, r.randint(-20, 20) / 2, 0.0, 0.0, 0.0, 0.0])
                    c = r.randrange(6)
                    at[c] += r.choice([0.25, 0.5, -0.25]) if c < 3 else r.choice([0.125, -0.0625])
                    ev.append(["pose", i] + at)
                elif q < 0.5 and len(objs) > 2:
                    i = r.choice([o for o in objs if o > 1])
                    poses.pop(i, None)
                    ev.append(["pos", i, r.randint(100, 3000) / 4, r.randint(-20, 20) / 2, r.randint(0, 6)])
                elif q < 0.65:
                    ev.append(["speed", r.choice(list(objs)), r.choice([0, 2, 7.5, -3])])
                elif q < 0.75:
                    ev.append(["wheel", r.choice(list(objs)), r.randint(0, 9) / 4, r.randint(-4, 4) / 8])
                else:
                    g = r.choice([1, 2, 3, 4, 5] + ([6 + j for j in range(len(lights))] * 2))
        if r.random() < 0.35:
            cur = r.choice(dts)
        if k == frames - 1 and t == 0 and cur == 0:
            cur = max(dts)
        ops.append(dict(o="frame", dt=round(cur * 1000), g=g, ev=ev))
        t += round(cur * 1000)
    if not t:
        ops.append(dict(o="frame", dt=100000, g=0, ev=[]))
        t = 100000
    times, x = [], 0
    for o in ops:
        x += o["dt"]
        if x not in times:
            times.append(x)
    ops.append(dict(o="open"))
    ops.append(dict(o="table"))
    start, stop, rep, mid = 0, t, False, True
    even = all(x % 10000 == 0 for x in times)
    some = lambda: r.choice(times + [r.choice(times) + r.choice([-4000, 3000, 5000]), -5000, t + 7000, r.randrange(t + 1) // 1000 * 1000 + 500])
    ok = lambda q: all(q == y or abs(q - y) > 400 for y in times) and (not rep or (abs(q - start) > 400 and abs(q - stop) > 400))
    for _ in range(r.randint(6, 20)):
        q = r.random()
        if q < 0.3:
            y = some()
            if all(y == z or abs(y - z) > 400 for z in times) and (y >= 0 or ops[1]["dt"]):
                ops.append(dict(o="at", t=y))
            continue
        k = r.choice([1, 1, 1, 2, 2, 3, 3, 3, 4, 4, 4, 8, 9, 10, 7, 5, 6])
        x, f = 0, 0
        if k == 1:
            x, f = some(), r.randrange(2)
            if not ok(x):
                continue
        elif k == 2:
            x, f = r.choice([-1, 1]) * r.choice([1000, 7000, 30000, 100000, 150000, 1000000] if even and not rep else [1137, 7411, 30239, 100613, 150817, 1000413]), r.randrange(2)
        elif k in (5, 6):
            a, b = sorted([r.choice(times), r.choice(times)])
            x = a if k == 5 else b
            if r.random() < 0.4:
                x += 4500 if k == 5 else -4500
            exact = x in times
            if (exact and rep) or any(0 < abs(x - y) < 400 for y in times) or (k == 5 and x >= stop) or (k == 6 and x <= start) or r.random() < 0.5:
                continue
            start, stop = (x, stop) if k == 5 else (start, x)
            mid = mid and not exact
        elif k in (7, 8, 9):
            f = r.randrange(2)
            if k == 7 and f and not mid:
                continue
            rep = f == 1 if k == 7 else rep
        ops.append(dict(o="move", k=k, x=x, f=f))
    return dict(sc=0, ops=ops, **ex)


def xml(c):
    ents = [("V1", osc.veh("c1", length=4.5)), ("V2", osc.veh("c2", cat="truck", width=2.5))]
    init = {"V1": osc.teleport_lane(-1, 100.0) + osc.speed(c["v0"][0]), "V2": osc.teleport_lane(-2, 200.0, 0.25, h=0.125 if c["h"] else None) + osc.speed(c["v0"][1])}
    ent = lambda body: '<GlobalAction><EntityAction entityRef="V2">%s</EntityAction></GlobalAction>' % body
    go = lambda n: osc.trigger(osc.varcond("go", n))
    lc = ('<PrivateAction><LateralAction><LaneOffsetAction continuous="false"><LaneOffsetActionDynamics dynamicsShape="linear" maxLateralAcc="5"/><LaneOffsetTarget><AbsoluteTargetLaneOffset value="0.75"/></LaneOffsetTarget>'
          '</LaneOffsetAction></LateralAction></PrivateAction>')
    ev = [osc.event("E1", ent("<DeleteEntityAction/>"), go(1), n=99),
          osc.event("E2", ent('<AddEntityAction><Position><LanePosition roadId="1" laneId="-2" offset="0" s="300"/></Position></AddEntityAction>'), go(2), n=99),
          osc.event("E3", osc.speed(5.0, "linear", "time", 0.3), go(3), n=99), osc.event("E4", lc, go(4), n=99),
          osc.event("E5", '<PrivateAction><VisibilityAction graphics="false" traffic="true" sensors="false"/></PrivateAction>', go(5), n=2)]
    for i, (v, l, m, tt) in enumerate(c["lights"]):
        ev.append('<Event name="L%d" priority="parallel" maximumExecutionCount="99"><Action name="L%d_a"><PrivateAction><AppearanceAction><LightStateAction transitionTime="%r"><LightType><VehicleLight vehicleLightType="%s"/></LightType>'
                  '<LightState mode="%s"/></LightStateAction></AppearanceAction></PrivateAction></Action>%s</Event>' % (i, i, tt, l, m, go(6 + i)))
    gs = [osc.group("G", ev[:5], ["V1"])] + [osc.group("GL%d" % i, [ev[5 + i]], [c["lights"][i][0]]) for i in range(len(c["lights"]))]
    return osc.scenario(ents, init, osc.act("A", gs), variables=osc.intvar("go"))


def us(t):
    return round(t * 1e6)


class Coder:
    def __init__(self):
        self.d = {}

    def __call__(self, s):
        return self.d.setdefault(s, len(self.d) + 1)


def vec(s, lights, code):
    return [code(s["name"])] + [s[k] if k in INTS else (round(s[k] * U) if s[k] is not None and abs(s[k]) < 200000 else BAD) for k in KEYS] + [3 if l < 0 else l for l in lights]


def job(case, emit):
    L = esm.load()
    code = Coder()
    open("s.xosc", "w").write(xml(case))
    a = ["--osc", "s.xosc", "--record", "r.dat", "--disable_stdout"]
    L.vf_register_early(None)
    rc = L.SE_InitWithArgs(len(a), (C.c_char_p * len(a))(*[x.encode() for x in a]))
    if rc:
        emit([BAD])
        return
    ids = {0: 0, 1: 1}
    is_open = True

    def frame():
        ob = L.vf_objs()
        out = [us(L.SE_GetSimulationTime()), len(ob)]
        for s in ob:
            out += [s["oid"]] + vec(s, [L.vf_light(s["oid"], i)["mode"] for i in range(14)], code)
        for e in L.vf_drain():
            if e[0] == "e" and e[2] > 1:           # the storyboard itself is left out
                out += [e[2], e[3], code(e[1])]
        emit(out)

    def shown(t):
        out = []
        for s in L.vf_rep_at(float(t), 0):
            out += [s["active"]] + (vec(s, s["lights"], code) if s["active"] == 1 else [0] * 40)
        return out
    for op in case["ops"]:
        if op["o"] == "frame":
            for e in op["ev"]:
                i = ids.get(e[1]) if e[0] != "add" else None
                if e[0] == "add":
                    ids[e[1]] = L.SE_AddObject("N%d" % e[1], e[3], e[4], 0, e[5], "") if e[2] == 0 else L.vf_addbb("N%d" % e[1], e[3], e[4], 0, e[5], 0.5, 0.0, 0.25, 3.0 + e[1], 1.5, 2.0, 0)
                    L.SE_ReportObjectPosXYH(ids[e[1]], 50.0 * e[1], 3.0, 0.0)
                elif e[0] == "del":
                    L.SE_DeleteObject(i)
                elif e[0] == "pos":
                    L.SE_ReportObjectPosXYH(i, float(e[2]), float(e[3]), float(e[4]))
                elif e[0] == "pose":
                    L.SE_ReportObjectPosMode(i, *[float(v) for v in e[2:8]], 0x3333)   # all absolute
                elif e[0] == "speed":
                    L.SE_ReportObjectSpeed(i, float(e[2]))
                elif e[0] == "wheel":
                    L.SE_ReportObjectWheelStatus(i, float(e[2]), float(e[3]))
            if op is not case["ops"][0]:
                L.SE_SetVariableInt("go", op["g"])
                L.SE_StepDT(op["dt"] / 1e6)
            frame()
        elif op["o"] == "open":
            L.SE_Close()
            q = L.vf_rep_open("r.dat")
            if q["rc"]:
                emit([BAD])
                return
            out = [us(q["start"]), us(q["stop"]), us(q["time"]), len(q["times"])] + [us(t) if abs(t) < 2000 else BAD for t in q["times"]] + [len(q["ids"])] + q["ids"]
            for t, text in q["esc"]:
                for m in re.finditer(r"^   (\w+) '(.*)' changed state to '(\w+)' \(path: (.*)\)$", text, re.M):
                    out += [us(t), TYPES.index(m.group(1)), STATES.index(m.group(3)), code(m.group(4))]
            emit(out)
        elif op["o"] == "table":
            p = subprocess.run([vf.BUILD + "/bin/dat2csv", "--file", "r.dat", "--csv", "r.csv", "--extended", "--precision", "9"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            out = []
            if p.returncode == 0:
                for l in open("r.csv").read().split("\n")[1:]:
                    w = [x.strip() for x in l.split(",")]
                    if len(w) == 17:
                        out += [us(float(w[0])), int(w[1]), code(w[2])] + [int(w[i]) if i in (9, 10) else round(float(w[i]) * U) for i in range(3, 17)]
                    elif l.strip():
                        out += [BAD]
            emit(out)
        elif op["o"] == "at":
            emit(shown(op["t"] / 1e6))
        else:
            q = L.vf_rep_go(op["k"], op["x"] / 1e6, op["f"])
            emit([us(q["time"]), us(q["start"]), us(q["stop"])] + shown(q["time"]))


def run(wd):
    def f(cases):
        return [(rc, dict(sc=c["sc"], ops=c["ops"], obs=lines)) for c, (rc, lines) in zip(cases, esm.run(job, cases, wd))]
    return f


def check(prop, tier):
    chk = vf.Check(prop, tier)
    quick = tier == "quick"
    vf.build()
    with vf.Scratch() as wd:
        vf.model(chk, "RecordMC", INV, wd, "CONSTANT Depth = %d" % (4 if quick else 5), timeout=3000)
        rng = random.Random("%s-%d" % (prop, vf.seed()))
        for b in range(1 if quick else 10):
            cases = [gen(rng) for _ in range(400)]
            runs, bad = vf.conform(chk, "RecordTrace", cases, run(wd), wd, "recording and replay", describe=lambda c: dict(case=c, xosc=xml(c)))
            chk.sample(dict(operations=cases[0]["ops"][:6], results=runs[0][1]["obs"][:2]))
            if bad:
                break
    chk.assum = ["no ghost vehicles (restarts)", "straight road"]
    return chk.finish()
