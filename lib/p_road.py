"""P10, P11: positions on road networks (RoadNet.tla, RoadPos.tla)."""
import random, math
import vf, esm, p_curve, roadnet
from roadnet import U

BAD = -99999999


def u(x, m=U):
    return BAD if not isinstance(x, (int, float)) or x != x or abs(x) > 1e6 else round(x * m)


def sec_at(r, s):
    k = 0
    while k + 1 < len(r["secs"]) and r["secs"][k + 1]["s"] <= s:
        k += 1
    return r["secs"][k]


def extent(r, s):
    """lateral extent of the road (conservative)"""
    le = sum(max(w["a"] for w in l["w"]) + 2 * U for l in sec_at(r, s)["lanes"] if l["id"] > 0)
    ri = sum(max(w["a"] for w in l["w"]) + 2 * U for l in sec_at(r, s)["lanes"] if l["id"] < 0)
    return -ri - 2 * U, le + 2 * U


def xy(r, s, t):
    return [(r["x"] + s, r["y"] + t), (r["x"] - t, r["y"] + s), (r["x"] - s, r["y"] - t), (r["x"] + t, r["y"] - s)][r["q"]]


def tie(r, s, t):
    """t is on the border of a lane, or as far from two driving lanes: either is right"""
    sec, t, d = sec_at(r, s), t - at(r["off"], s), []
    for sg in (1, -1):
        b = 0
        for l in sorted((l for l in sec["lanes"] if l["id"] * sg > 0), key=lambda l: abs(l["id"])):
            w = at(l["w"], s - sec["s"])
            if w <= 0:
                continue
            c, b = sg * (2 * b + w), b + w
            if abs(abs(2 * t - c) - w) < 12:
                return True
            if l["ty"] in roadnet.DRIV:
                d.append(abs(2 * t - c))
    d.sort()
    return len(d) > 1 and d[1] - d[0] < 12


def dist(r, x, y):
    """distance of a point from the reference line"""
    dx, dy = x - r["x"], y - r["y"]
    s, t = [(dx, dy), (dy, -dx), (-dx, -dy), (-dy, dx)][r["q"]]
    ex = max(0, -s, s - r["len"])
    return math.hypot(ex, t)


def gen(rng, mode):
    net = roadnet.Net(rng, juncs=rng.choice([0, 1, 1, 2]) if mode != "pos" else rng.choice([0, 1]), maxsec=3, zero=0.1 if mode == "pos" and rng.random() < 0.4 else 0.0, loop=mode == "dist" and rng.random() < 0.4)
    sc = net.sc()
    sc["lht"] = int(rng.random() < 0.2)
    sc["strict"] = 0
    roads = sc["roads"]
    flat = all(e["a"] == 0 and e["b"] == 0 for r in roads for e in r["elev"])   # x, y alone identify the road only where z plays no role
    # the lane that a position in road i can be put on
    def rnd_lane(i, drv):
        r = roads[i - 1]
        s = rng.randrange(1, r["len"])
        c = [l["id"] for l in sec_at(r, s)["lanes"] if not drv or l["ty"] in roadnet.DRIV]
        return (s, rng.choice(c)) if c else rnd_lane(rng.randint(1, len(roads)), drv)

    ops, n = [dict(o="ids", h=0)], 0
    for _ in range(2):
        ops.append(dict(o="create", h=0))
        n += 1
    for _ in range(rng.randint(14, 26)):
        h = rng.randint(1, n) if rng.random() < 0.96 else rng.choice([n + 1, 0, -3])
        r = rng.random()
        w = dict(move=[.04, .07, .09, .25, .30, .30, .34, .84], pos=[.05, .10, .13, .40, .65, .83, .95, .98], dist=[.10, .12, .14, .45, .50, .50, .50, .50])[mode]
        if r < w[0]:
            ops.append(dict(o="create", h=0))
            n += 1
        elif r < w[1]:
            ops.append(dict(o="copy", h=h))
            n += 1 <= h <= n
        elif r < w[2] and n > 1:
            ops.append(dict(o="delete", h=h))
            n -= 1 <= h <= n
            if h == 0:                               # all
                ops.append(dict(o="create", h=0))
                n = 1
        elif r < w[3]:
            i = rng.randint(1, len(roads))
            s, lane = rnd_lane(i, mode != "pos")
            i = next(k + 1 for k, q in enumerate(roads) if s <= q["len"] and lane in [l["id"] for l in sec_at(q, s)["lanes"] if mode == "pos" or l["ty"] in roadnet.DRIV] and (k + 1 == i or s < q["len"]))
            if mode == "pos" and rng.random() < 0.06:
                lane = rng.choice([7, -7])
            if mode == "pos" and rng.random() < 0.05:
                s = roads[i - 1]["len"] + rng.randrange(U, 50 * U)
            ops.append(dict(o="setlane", h=h, i=i, lane=lane, off=rng.choice([0, 0, U // 2, -U // 4, rng.randrange(-U, U)]), s=s, align=rng.random() < 0.8))
        elif r < w[4]:
            i = rng.randint(1, len(roads))
            rd = roads[i - 1]
            s = rng.randrange(1, rd["len"])
            a, b = extent(rd, s)
            t = rng.randrange(a, b)
            if tie(rd, s, t):
                continue
            ops.append(dict(o="setroad", h=h, i=i, s=s, t=t, align=rng.random() < 0.8))
        elif r < w[5]:
            i = rng.randint(1, len(roads))
            rd = roads[i - 1]
            if rd["len"] < 30 * U:
                continue
            s = rng.randrange(10 * U, rd["len"] - 10 * U)
            a, b = extent(rd, s)
            t = rng.randrange(a, b)
            if tie(rd, s, t):
                continue
            x, y = xy(rd, s, t)
            if any(dist(q, x, y) < 60 * U and k + 1 != i for k, q in enumerate(roads)) and not all(k + 1 == i or dist(q, x, y) > 45 * U or chain(roads, i, k + 1) and dist(q, x, y) > abs(t) + 8 * U for k, q in enumerate(roads)):
                continue
            if any(abs(s - z["s"]) < 25 * U for z in rd["off"][1:]):
                continue    # close to a step of the lane offset the projection on the road is ambiguous
            if net.o["zero"] and any(abs(s - z["s"]) < 25 * U for z in rd["secs"][1:]):
                continue    # or of the width
            ops.append(dict(o="setxy", h=h, i=i, s=s, t=t, rev=rng.randint(0, 1), x=x, y=y, z=at(rd["elev"], s), xyz=int(not flat or rng.random() < 0.3)))
        elif r < w[6]:
            i = rng.randint(1, len(roads))
            ops.append(dict(o="lanes", h=0, i=i, s=rng.randrange(0, roads[i - 1]["len"]), l=rng.sample([-6, -5, -4, -3, -2, -1, 1, 2, 3, 4], 4)))
        elif net.o["zero"]:
            continue                                 # nothing drives on lanes of no width
        elif mode == "dist":
            ops.append(dict(o="diff", h=h, g=rng.randint(1, n)))
        elif mode == "move" and rng.random() < 0.08:
            ops.append(dict(o="turn", h=h, rev=rng.randint(0, 1), tilt=rng.choice([0, 3, -3])))
        elif r < w[7]:
            d = rng.choice([rng.randrange(1, 20 * U), rng.randrange(1, 120 * U), rng.randrange(1, 300 * U)])
            ops.append(dict(o="move", h=h, d=d if rng.random() < 0.75 else -d, sel=rng.choice([-1, 0, 0, 1, 2, 3])))
        else:
            d = rng.choice([0, rng.randrange(1, 30 * U), rng.randrange(1, 200 * U)])
            ops.append(dict(o=rng.choice(["look", "look", "probe"]), h=h, d=d if rng.random() < 0.7 else -d, m=rng.choice([0, 2]), dir=rng.choice([0, 0, 1])))
    return dict(sc=sc, names=net.names, jnames=net.jnames, ops=ops)


def turned():
    """known finding: looking in driving direction from a position headed against it, turned to the right"""
    rng = random.Random("turned")
    while True:
        c = gen(rng, "move")
        r = c["sc"]["roads"][0]
        l = [x["id"] for x in r["secs"][0]["lanes"] if x["id"] < 0 and x["ty"] in roadnet.DRIV]
        if r["len"] > 40 * U and r["secs"][0]["len"] > 40 * U and l:
            break
    c["sc"].update(lht=0, strict=1)
    c["ops"] = [dict(o="create", h=0), dict(o="setlane", h=1, i=1, lane=l[0], off=0, s=20 * U, align=True), dict(o="turn", h=1, rev=1, tilt=3), dict(o="look", h=1, d=10 * U, m=0, dir=1)]
    return c


def at(prof, s):
    p = [e for e in prof if e["s"] <= s][-1]
    return p["a"] + p["b"] * (s - p["s"]) // 16


def chain(roads, i, k):
    return any(z["k"] == "road" and z["i"] == k for z in (roads[i - 1]["pred"], roads[i - 1]["succ"]))


def job(case, emit):
    L = esm.load()
    L.RM_SetOptionPersistent("disable_stdout")
    open("r.xodr", "w").write(roadnet.xodr(case["sc"], case["names"], case["jnames"], rule="LHT" if case["sc"]["lht"] else None))
    if L.RM_Init("r.xodr") != 0:
        emit([BAD])
        return
    ids = [L.RM_GetRoadIdFromString(x) for x in case["names"]]
    sgn = lambda r: -1 if r < 0 else 0

    def where(h):
        p = L.vf_pos(h - 1)
        return [ids.index(p["road"]) + 1 if p["road"] in ids else 0, u(p["s"]), p["lane"], u(p["off"]), u(p["x"]), u(p["y"]), u(p["z"]), round(p["h"] / (math.pi / 2)) % 4 if p["h"] == p["h"] else BAD]

    def rel(h, d):
        """the relative position of the probe in world directions, and whether the angle goes with it"""
        a, x, y = L.vf_pos(h - 1)["h"], d["rx"], d["ry"]
        if any(v != v for v in (a, x, y, d["rh"])):
            return [BAD] * 3
        return [u(x * math.cos(a) - y * math.sin(a)), u(x * math.sin(a) + y * math.cos(a)), int(math.hypot(x, y) < 0.01 or abs(math.remainder(d["rh"] - math.atan2(y, x), 2 * math.pi)) < 1e-3)]
    import ctypes as C
    for op in case["ops"]:
        o, h = op["o"], op["h"]
        n = L.RM_GetNrOfPositions()
        if o == "create":
            rc = L.RM_CreatePosition()
            emit([rc, L.RM_GetNrOfPositions()])
        elif o == "copy":
            rc = L.RM_CopyPosition(h - 1)
            emit([rc, L.RM_GetNrOfPositions()] + (where(rc + 1) if rc >= 0 else []))
        elif o == "delete":
            emit([L.RM_DeletePosition(h - 1), L.RM_GetNrOfPositions()])
        elif o == "ids":
            byidx = [L.RM_GetIdOfRoadFromIndex(k) for k in range(L.RM_GetNumberOfRoads())]
            out = []
            for k, nm in enumerate(case["names"]):
                out += [byidx.index(ids[k]) if ids[k] in byidx else BAD, int(L.RM_GetRoadIdString(ids[k]) == nm and ids.count(ids[k]) == 1)]
            for nm in case["jnames"]:
                out.append(int(L.RM_GetJunctionIdString(L.RM_GetJunctionIdFromString(nm)) == nm))
            emit(out + [u(L.RM_GetRoadLength(k)) for k in ids])
        elif o == "lanes":
            i, s = ids[op["i"] - 1], op["s"] / U
            n = L.RM_GetRoadNumberOfDrivableLanes(i, s)
            v, w = C.c_int(), C.c_double()
            out = [n]
            for k in range(max(n, 0)):
                v.value = BAD
                L.RM_GetDrivableLaneIdByIndex(i, k, s, C.byref(v))
                out.append(v.value)
            out += [L.RM_GetLaneTypeByRoadId(i, l, s) for l in op["l"]]
            for l in op["l"]:
                w.value = -1
                L.RM_GetLaneWidthByRoadId(i, l, s, C.byref(w))
                out.append(u(w.value))
            emit(out)
        elif o == "diff":
            d = L.vf_rmdiff(h - 1, op["g"] - 1)
            emit([d["rc"]] + ([n] if d["rc"] == -1 else [u(d["ds"]), u(d["dt"]), d["dlane"]] if d["rc"] == 0 else []))
        elif o in ("look", "probe"):
            d = (L.vf_laneinfo if o == "look" else L.vf_probe)(h - 1, op["d"] / U, op["m"], op["dir"])
            if not 1 <= h <= n:
                emit([d["rc"], n])
                continue
            emit([sgn(d["rc"]), ids.index(d["road"]) + 1 if d["road"] in ids else 0, u(d["s"]), d["lane"], u(d["off"]), u(d["x"]), u(d["y"]), u(d["z"]), u(d["w"]), u(d["limit"]), d["ltype"]] + where(h) + [u(L.RM_GetSpeedLimit(h - 1))] + (rel(h, d) if o == "probe" else []))
        else:
            if o == "setlane":
                rc = L.RM_SetLanePosition(h - 1, ids[op["i"] - 1], op["lane"], op["off"] / U, op["s"] / U, op["align"])
            elif o == "setroad":
                rc = L.RM_SetRoadPosition(h - 1, ids[op["i"] - 1], op["s"] / U, op["t"] / U, op["align"])
            elif o == "setxy":
                hd = ((case["sc"]["roads"][op["i"] - 1]["q"] + 2 * op["rev"]) % 4) * math.pi / 2
                rc = L.RM_SetWorldPosition(h - 1, op["x"] / U, op["y"] / U, op["z"] / U, hd, 0.0, 0.0) if op["xyz"] else L.RM_SetWorldXYHPosition(h - 1, op["x"] / U, op["y"] / U, hd)
            elif o == "turn":
                rc = L.RM_SetHMode(h - 1, (op["rev"] * math.pi + op["tilt"] / 10) % (2 * math.pi), 0x70)   # relative to the road
            elif o == "move":
                rc = L.RM_PositionMoveForward(h - 1, op["d"] / U, op["sel"] * math.pi / 2 if op["sel"] >= 0 else -1.0)
            emit([sgn(rc), L.RM_GetNrOfPositions()] + (where(h) if 1 <= h <= n else []))
    L.RM_Close()


def run(wd):
    def f(cases):
        return [(rc, dict(sc=c["sc"], ops=c["ops"], obs=lines)) for c, (rc, lines) in zip(cases, esm.run(job, cases, wd))]
    return f


INV = ["Lands", "Exact", "Additive", "Back", "RoundTrip", "Apart", "Turning", "Measured"]


def check(prop, tier):
    chk = vf.Check(prop, tier)
    quick = tier == "quick"
    mode = {"P10": "pos", "P11": "move", "P12": "dist"}[prop]
    vf.build()
    with vf.Scratch() as wd:
        vf.model(chk, "RoadPosMC", INV, wd, "CONSTANT Reach = %d" % (9 if quick else 16), timeout=3000)
        rng = random.Random("%s-%d" % (prop, vf.seed()))
        if prop == "P11":
            vf.conform(chk, "RoadPosTrace", [turned()], run(wd), wd, "looking in driving direction", known=lambda c, t, k, e: "look-turned-right" if k == 4 and t["obs"][3][2] == 10 * U else None)
        for b in range((2 if mode != "dist" else 1) if quick else 16):
            cases = [gen(rng, mode) for _ in range(1000)]
            runs, bad = vf.conform(chk, "RoadPosTrace", cases, run(wd), wd, "positions on the road network",
                                   describe=lambda c: dict(ops=c["ops"], xodr=roadnet.xodr(c["sc"], c["names"], c["jnames"], rule="LHT" if c["sc"]["lht"] else None)))
            chk.add("roads", sum(len(c["sc"]["roads"]) for c in cases))
            chk.sample(dict(roads=len(cases[0]["sc"]["roads"]), operations=cases[0]["ops"][:5], results=runs[0][1]["obs"][:5]))
            if bad:
                break
        if prop == "P10" and not bad:
            vf.model(chk, "CurveMC", p_curve.INV, wd, "CONSTANT Far = %d" % (6 if quick else 9), timeout=3000)
            for b in range(1 if quick else 12):
                cases = [p_curve.gen(rng) for _ in range(400)]
                runs, bad = vf.conform(chk, "CurveTrace", cases, p_curve.run(wd), wd, "positions on roads in space", describe=lambda c: dict(ops=c["ops"], xodr=p_curve.xodr(c["sc"])))
                chk.add("roads", sum(len(c["sc"]["roads"]) for c in cases))
                chk.sample(dict(geometries=[[g["form"] for g in r["geo"]] for r in cases[0]["sc"]["roads"]], operations=cases[0]["ops"][-5:], results=runs[0][1]["obs"][-5:]))
                if bad:
                    break
    chk.assum = ["straight roads in the four compass directions; coordinates are multiples of 1/1024 m and compared within 3/1024 m", "where a lane ends the new lane is left open",
                 "at a junction with several equally good ways any of them is accepted"]
    if prop == "P10":
        chk.assum += ["on bent, sloped and banked roads the reference line is compared with a numerical integration of the specification (within 0.02 m, poly3 within 0.6 m), lookups from world coordinates within 0.6 m along the road"]
    return chk.finish()
