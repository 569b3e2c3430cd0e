"""P13: entity conditions (Cond.tla)."""
import math, random
import vf, esm, osc

U = 32
INV = ["AllImpliesAny", "Complement", "CollideIsNoGap", "Euclid", "FreeIsCloser", "Symmetric", "Definite"]
LEN, HALF, LW = 5000 * U, 12 * U, 4 * U
RULES = ["lessThan", "greaterThan", "lessOrEqual", "greaterOrEqual"]


def lat(rng, off=True):
    """A lateral position away from lane borders (1/8 m grid)."""
    if off and rng.random() < 0.12:
        return rng.choice([-1, 1]) * rng.choice([100, 104, 112, 120]) * 4
    return rng.choice([-5, -3, -1, 1, 3, 5]) * 2 * U + rng.randint(-8, 8) * 4


ACC = [(0, 0), (2, 0), (-3, 0), (0, 2), (0, -1), (3, 4), (-4, 3), (4, -3), (1, 0)]


def rot(h, a, b):
    return [(a, b), (-b, a), (-a, -b), (b, -a)][h]


def place(rng, base, still=0.2):
    h = rng.choice([0, 0, 0, 2, 2, 1, 3])
    lo = 0 if rng.random() < still else rng.choice([-7, -3, 1, 3, 5, 9, 11, 15])
    la = 0 if lo == 0 or rng.random() < 0.8 else rng.choice([-2, 1])
    v, a = rot(h, lo, la), rot(h, *rng.choice(ACC))
    return dict(x=base + rng.randint(-160, 160) * 4, y=lat(rng), h=h, sp=lo, vx=v[0], vy=v[1], ax=a[0], ay=a[1])


def point(rng, base, n):
    k = rng.choice(["abs", "abs", "relw", "relo"])
    if k == "abs":
        return dict(k=k, x=base + rng.randint(-160, 160) * 4, y=lat(rng, False), e=1)
    return dict(k=k, x=rng.randint(-80, 80) * 4, y=rng.randint(-12, 12) * 4, e=rng.randint(1, n))


def odd(rng, m):
    """An odd threshold of up to m metres (or seconds), small ones more often."""
    return 2 * int(m * 16 * rng.random() ** 2) + 1


def gencond(rng, n, drv, base):
    k = rng.choice(["dist", "dist", "dist", "dist", "headway", "headway", "ttc", "ttc", "reach", "speed", "relspeed", "acc", "still", "off", "end", "trav", "coll", "coll", "angle", "clear", "clear"])
    ents = list(range(1, n + 1))
    ref = rng.choice(ents)
    c = dict(k=k, ref=0, pt=dict(k="abs", x=0, y=0, e=1), rule=rng.choice(RULES), val=1, all=rng.random() < 0.5, cs="entity", dt="euclidianDistance", free=False, dir="any", tol=1, hd=-1, tilt=0, refs=[])
    pool = ents
    if k in ("dist", "headway", "ttc"):
        c.update(cs=rng.choice(["entity", "road", "lane"]), dt=rng.choice(["longitudinal", "longitudinal", "lateral", "euclidianDistance"]), free=rng.random() < 0.5)
        if k == "headway" or rng.random() < 0.6:
            c["ref"] = ref
        else:
            c["pt"] = point(rng, base, n)
        if k != "dist" and c["dt"] == "lateral":
            c["dt"] = "longitudinal"
        c["val"] = odd(rng, 40 if k == "dist" else 12)
    elif k == "reach":
        c.update(pt=point(rng, base, n), val=odd(rng, 30))
        if c["pt"]["k"] == "abs" and rng.random() < 0.5:
            c["hd"] = rng.choice([0, 0, 2, 1, 3])
            c["tilt"] = rng.choice([0, 0, 0, 1, 2])
    elif k in ("speed", "relspeed", "acc"):
        c["dir"] = rng.choice(["any", "longitudinal", "lateral"])
        c["val"] = rng.choice([-9, -5, -1, 1, 3, 5, 7, 9, 13, 21])
        if k == "relspeed":
            c["ref"] = ref
        if k == "speed" and c["dir"] == "any" and rng.random() < 0.3:
            c.update(rule=rng.choice(["equalTo", "notEqualTo"]), val=2 * rng.choice([0, 1, 3, 5]))
        if k == "acc":
            pool = [e for e in ents if e not in drv]
            c["val"] = rng.choice([-9, -5, -3, 1, 3, 5, 7, 9])
    elif k in ("still", "off", "end"):
        c["val"] = rng.choice([1, 3, 5, 9, 17, 25])
        if k == "end":
            pool = drv
    elif k == "trav":
        pool = drv
        c["val"] = odd(rng, 100)
    elif k == "coll":
        if rng.random() < 0.5:
            c["ref"] = ref
        else:
            c["val"] = rng.choice([0, 0, 1])
    elif k == "angle":
        c.update(cs=rng.choice(["world", "road", "lane"]), val=rng.choice([0, 8, 16, 24, 2, 30, 12, -8, -4]), tol=rng.choice([1, 3, 7, 9]))
    elif k == "clear":
        fr = rng.choice([0, 0, -1, -2])
        c.update(val=odd(rng, 40), back=odd(rng, 40), to=rng.choice([0, 0, 1, 2]), opp=rng.random() < 0.5, free=rng.random() < 0.4, refs=rng.sample(ents, rng.randint(1, n)) if rng.random() < 0.5 else [])
        c["from"] = fr
    pool = [e for e in pool if e != c["ref"]]
    if not pool:
        return None
    c["trig"] = rng.sample(pool, rng.randint(1, min(3, len(pool))))
    return c


def gen(rng):
    n = rng.randint(2, 4)
    end = rng.random() < 0.3
    base = 1000 * U
    ent = []
    drv = []
    for e in range(n):
        ped = rng.random() < 0.2
        d = dict(l=rng.choice([4, 5, 8, 12]) * U, w=rng.choice([2, 2, 3]) * U, ty=0, drv=False) if not ped else dict(l=U, w=U, ty=1, drv=False)
        d.update(cx=rng.choice([0, 48, 48, 40]), cy=rng.choice([0, 0, 0, 8]), x=base + 320 * e, y=-2 * U, h=0, sp=0)
        if rng.random() < 0.45:
            drv.append(e + 1)
            left = rng.random() < 0.4
            d.update(drv=True, h=2 if left else 0, y=(1 if left else -1) * rng.choice([2, 6, 10]) * U, sp=rng.choice([0, 1, 3, 5, 9, 15, 21]), x=base + rng.randint(-160, 160) * 4)
            if end and d["sp"]:
                d["x"] = LEN - rng.choice([1, 3, 10]) * U - 2 if not left else rng.choice([1, 3, 10]) * U + 2
        ent.append(d)
    cond = []
    while len(cond) < 14:
        c = gencond(rng, n, drv, base)
        if c:
            cond.append(c)
    ops = [dict(o="init", dt=0, rep=[], **{"del": 0})]
    cur = [None] * n
    for _ in range(rng.randint(6, 12)):
        for e in range(n):
            if cur[e] is None or rng.random() < 0.5:
                old = cur[e]
                cur[e] = place(rng, base)
                if old and rng.random() < 0.4:     # only a detail changes
                    cur[e] = dict(old, **{k: cur[e][k] for k in rng.choice([("x",), ("y",), ("ax", "ay")])})
        ops.append(dict(o="step", dt=rng.choice([1, 1, 2, 4, 8]), rep=[dict(c) for c in cur], **{"del": rng.randint(1, n) if rng.random() < 0.08 else 0}))
    return dict(sc=dict(ent=ent, cond=cond, len=LEN, half=HALF, lw=LW), ops=ops)


def pos(p, hd=-1, tilt=0):
    o = "" if hd < 0 else '<Orientation type="absolute" h="%r"%s/>' % (hd * math.pi / 2, ["", ' p="0.5"', ' r="0.5"'][tilt])
    if p["k"] == "abs":
        if hd >= 0:
            return '<Position><RoadPosition roadId="1" s="%r" t="%r">%s</RoadPosition></Position>' % (p["x"] / U, p["y"] / U, o)
        return '<Position><WorldPosition x="%r" y="%r"/></Position>' % (p["x"] / U, p["y"] / U)
    return '<Position><%s entityRef="N%d" dx="%r" dy="%r"/></Position>' % ({"relw": "RelativeWorldPosition", "relo": "RelativeObjectPosition"}[p["k"]], p["e"], p["x"] / U, p["y"] / U)


def body(c):
    k = c["k"]
    d = 'coordinateSystem="%s" relativeDistanceType="%s" freespace="%s" rule="%s" value="%r"' % (c["cs"], c["dt"], "true" if c["free"] else "false", c["rule"], c["val"] / U)
    dr = "" if c["dir"] == "any" else 'direction="%s"' % c["dir"]
    b = {
        "dist": lambda: '<RelativeDistanceCondition entityRef="N%d" %s/>' % (c["ref"], d) if c["ref"] else '<DistanceCondition %s>%s</DistanceCondition>' % (d, pos(c["pt"])),
        "headway": lambda: '<TimeHeadwayCondition entityRef="N%d" %s/>' % (c["ref"], d),
        "ttc": lambda: '<TimeToCollisionCondition %s><TimeToCollisionConditionTarget>%s</TimeToCollisionConditionTarget></TimeToCollisionCondition>' % (
            d, '<EntityRef entityRef="N%d"/>' % c["ref"] if c["ref"] else pos(c["pt"])),
        "reach": lambda: '<ReachPositionCondition tolerance="%r">%s</ReachPositionCondition>' % (c["val"] / U, pos(c["pt"], c["hd"], c["tilt"])),
        "speed": lambda: '<SpeedCondition value="%r" rule="%s" %s/>' % (c["val"] / 2, c["rule"], dr),
        "relspeed": lambda: '<RelativeSpeedCondition entityRef="N%d" value="%r" rule="%s" %s/>' % (c["ref"], c["val"] / 2, c["rule"], dr),
        "acc": lambda: '<AccelerationCondition value="%r" rule="%s" %s/>' % (c["val"] / 2, c["rule"], dr),
        "still": lambda: '<StandStillCondition duration="%r"/>' % (c["val"] / 16),
        "off": lambda: '<OffroadCondition duration="%r"/>' % (c["val"] / 16),
        "end": lambda: '<EndOfRoadCondition duration="%r"/>' % (c["val"] / 16),
        "trav": lambda: '<TraveledDistanceCondition value="%r"/>' % (c["val"] / U),
        "coll": lambda: '<CollisionCondition>%s</CollisionCondition>' % ('<EntityRef entityRef="N%d"/>' % c["ref"] if c["ref"] else '<ByType type="%s"/>' % ["vehicle", "pedestrian"][c["val"]]),
        "angle": lambda: '<AngleCondition angleType="heading" angle="%r" angleTolerance="%r" coordinateSystem="%s"/>' % (c["val"] * math.pi / 16, c["tol"] * math.pi / 16, c["cs"]),
        "clear": lambda: '<RelativeClearanceCondition distanceForward="%r" distanceBackward="%r" freeSpace="%s" oppositeLanes="%s"><RelativeLaneRange from="%d" to="%d"/>%s</RelativeClearanceCondition>' % (
            c["val"] / U, c["back"] / U, "true" if c["free"] else "false", "true" if c["opp"] else "false", c["from"], c["to"], "".join('<EntityRef entityRef="N%d"/>' % e for e in c["refs"])),
    }[k]()
    return '<ByEntityCondition><TriggeringEntities triggeringEntitiesRule="%s">%s</TriggeringEntities><EntityCondition>%s</EntityCondition></ByEntityCondition>' % (
        "all" if c["all"] else "any", "".join('<EntityRef entityRef="N%d"/>' % e for e in c["trig"]), b)


def pedestrian(name, d):
    return ('<Pedestrian name="%s" mass="80" model="m" pedestrianCategory="pedestrian"><BoundingBox><Center x="%r" y="%r" z="0.9"/><Dimensions width="%r" length="%r" height="1.8"/></BoundingBox><Properties/></Pedestrian>') % (
        name, d["cx"] / U, d["cy"] / U, d["w"] / U, d["l"] / U)


def xml(case):
    sc = case["sc"]
    ents, init = [], {}
    for i, d in enumerate(sc["ent"]):
        nm = "N%d" % (i + 1)
        ents.append((nm, pedestrian("p%d" % i, d) if d["ty"] else osc.veh("c%d" % i, length=d["l"] / U, width=d["w"] / U, cx=d["cx"] / U, cy=d["cy"] / U)))
        lane = int(math.copysign((abs(d["y"]) + LW - 1) // LW, d["y"]))
        init[nm] = osc.teleport_lane(lane, d["x"] / U) + osc.speed(float(d["sp"]))
    never = osc.varcond("never", 1, name="Z")
    gs = ""
    for i, c in enumerate(sc["cond"]):
        for nm, edge in (("C", "none"), ("F", "falling")):
            gs += "<ConditionGroup>%s%s</ConditionGroup>" % (osc.cond(body(c), "%s%d" % (nm, i), edge, kind="entity"), never)
    gone = [osc.group("D%d" % (i + 1), [osc.event("DE%d" % (i + 1), '<GlobalAction><EntityAction entityRef="N%d"><DeleteEntityAction/></EntityAction></GlobalAction>' % (i + 1),
                                                  "<StartTrigger><ConditionGroup>%s</ConditionGroup></StartTrigger>" % osc.varcond("del", i + 1, name="DC%d" % (i + 1)))], []) for i in range(len(ents))]
    return osc.scenario(ents, init, osc.act("A", [osc.group("G", [osc.event("E", osc.NOP, "<StartTrigger>%s</StartTrigger>" % gs)], [])] + gone), variables=osc.intvar("never") + osc.intvar("del"), minor=3)


def job(case, emit):
    L = esm.load()
    L.SE_SetOptionPersistent("disable_stdout")
    L.vf_register_early(None)
    open("s.xosc", "w").write(xml(case))
    if L.SE_Init("s.xosc", 0, 0, 0, 0) != 0:
        emit([-9])
        return
    val = [0] * len(case["sc"]["cond"])
    gone = set()
    for op in case["ops"]:
        if op["o"] == "step":
            for e, r in enumerate(op["rep"]):
                if not case["sc"]["ent"][e]["drv"] and e + 1 not in gone:
                    L.SE_ReportObjectPosXYH(e, r["x"] / U, r["y"] / U, r["h"] * math.pi / 2)
                    L.SE_ReportObjectSpeed(e, float(r["sp"]))
                    L.SE_ReportObjectVel(e, float(r["vx"]), float(r["vy"]), 0.0)
                    L.SE_ReportObjectAcc(e, float(r["ax"]), float(r["ay"]), 0.0)
            L.SE_SetVariableInt("del", op["del"])
            gone.add(op["del"])
            L.SE_StepDT(op["dt"] / 8)
        for e in L.vf_drain():
            if e[0] == "c" and e[1][0] in "CF" and e[1][1:].isdigit():
                val[int(e[1][1:])] = int(e[1][0] == "C")
        emit(list(val))
    L.SE_Close()


def run(wd):
    def f(cases):
        return [(rc, dict(sc=c["sc"], ops=c["ops"], obs=lines)) for c, (rc, lines) in zip(cases, esm.run(job, cases, wd))]
    return f


def explain(cases, runs, bad):
    """Which conditions disagree (debugging aid)."""
    import collections
    cnt, ex = collections.Counter(), {}
    for i in bad:
        k, exp = bad[i]
        ob = runs[i][1]["obs"][k - 1]
        for n, (a, b) in enumerate(zip(ob, exp)):
            if a != b:
                c = cases[i]["sc"]["cond"][n]
                key = (c["k"], c["ref"] > 0, c["cs"], c["dt"], c["free"], c["dir"], a)
                cnt[key] += 1
                ex.setdefault(key, (i, k, n, c, cases[i]["ops"][k - 1], cases[i]["sc"]["ent"]))
    for key, m in cnt.most_common():
        print(m, key, ex[key])


def check(prop, tier):
    chk = vf.Check(prop, tier)
    quick = tier == "quick"
    vf.build()
    with vf.Scratch() as wd:
        vf.model(chk, "CondMC", INV, wd, "CONSTANT Wide = %s" % ("FALSE" if quick else "TRUE"), timeout=3000)
        rng = random.Random("%s-%d" % (prop, vf.seed()))
        for b in range(1 if quick else 10):
            cases = [gen(rng) for _ in range(450)]
            runs, bad = vf.conform(chk, "CondTrace", cases, run(wd), wd, "entity conditions", describe=lambda c: dict(case=c, xosc=xml(c)))
            chk.sample(dict(entities=cases[0]["sc"]["ent"], conditions=cases[0]["sc"]["cond"][:2], operations=cases[0]["ops"][1:3], values=runs[0][1]["obs"][:3]))
            if bad:
                break
    chk.assum = ["straight flat road; headings in quarter turns; thresholds away from equality", "time to collision is compared for parallel motion only"]
    return chk.finish()
