"""P24: entities with routes (Route.tla)."""
import random
import vf, esm, osc, roadnet
from roadnet import U

BAD = -99999999
INV = ["Arrives", "NoShorter", "OnlyTheirs", "Told", "Unrouted", "TakesTurns"]


def ahead(sc, i, lane):
    """where the lane of road i (driving direction) leads: [(road, lane)]"""
    side = "end" if lane < 0 else "start"
    r = sc["roads"][i - 1]
    lk = r["succ"] if side == "end" else r["pred"]
    sec = r["secs"][-1 if side == "end" else 0]
    if lk["k"] == "road":
        l = [l for l in sec["lanes"] if l["id"] == lane]
        t = (l[0]["succ"] if side == "end" else l[0]["pred"]) if l else 0
        return [(lk["i"], t)] if t else []
    if lk["k"] == "junction":
        return [(c["con"], x["t"]) for c in sc["juncs"][lk["i"] - 1]["conns"] if c["inc"] == i for x in c["links"] if x["f"] == lane]
    return []


def walk(rng, sc, i, lane, n):
    out = [(i, lane)]
    while len(out) < n:
        w = [x for x in ahead(sc, *out[-1]) if x[0] not in [o[0] for o in out]]
        if not w:
            break
        out.append(rng.choice(w))
    return out


def gen(rng):
    cross = rng.random() < 0.6
    net = roadnet.Net(rng, juncs=rng.choice([1, 2, 3]), slopes=False, offsets=False, elev=False, maxsec=2, typed=False, kinds=False, names=False, minlen=30, maxlen=110, loop=rng.random() < 0.8, evolve=False, cross=float(cross))
    sc = net.sc()
    sc["lht"] = 0
    roads = sc["roads"]
    place = lambda i: rng.randrange(roads[i - 1]["len"] // 8, roads[i - 1]["len"] * 7 // 8)
    ents, plans = [], []
    free = [i + 1 for i, r in enumerate(roads) if not r["junc"]]
    frames = rng.randint(8, 18)
    when = {k: [] for k in range(frames + 1)}
    for e in range(1, rng.choice([1, 2, 2, 3]) + 1):
        i = rng.choice(free)
        lane = rng.choice([l["id"] for l in roads[i - 1]["secs"][0]["lanes"]])
        s = place(i)
        ents.append(dict(r=i, s=s, lane=lane, off=0, rev=int(lane > 0), v=rng.choice([5, 10, 15, 20, 25, 30])))
        at, here = 0, (i, lane)
        for k in range(rng.choice([1, 1, 2, 3])):
            p = dict(k=rng.choice(["route", "acquire"]), e=e)
            w = walk(rng, sc, here[0], here[1], rng.randint(2, 12)) if at == 0 else walk(rng, sc, *rng.choice(walk(rng, sc, here[0], here[1], 6)), rng.randint(2, 12))
            if p["k"] == "acquire":
                t = w[-1] if rng.random() < 0.6 else (lambda j: (j, rng.choice(roads[j - 1]["secs"][0]["lanes"])["id"]))(rng.choice(free))
                p["wp"] = [dict(r=t[0], lane=t[1], s=place(t[0]))]
            else:
                p["wp"] = []
                few = rng.random() < 0.4
                for n, (j, l) in enumerate(w):
                    if n in (0, len(w) - 1) or (not few and rng.random() < 0.25):
                        x = [place(j)] + ([place(j)] if rng.random() < 0.15 and (n == 0 or not cross) else [])
                        for q in sorted(x, reverse=l > 0):
                            p["wp"].append(dict(r=j, lane=l, s=q))
                if len(p["wp"]) < 2:
                    p["wp"].append(dict(p["wp"][0], s=roads[p["wp"][0]["r"] - 1]["len"] // (16 if p["wp"][0]["lane"] > 0 else 1)))
                if rng.random() < 0.1 and all(a["r"] != b["r"] for a in p["wp"] for b in p["wp"] if a is not b):
                    rng.shuffle(p["wp"])
            plans.append(p)
            when[at].append(len(plans))
            at += rng.randint(1, 6)
            if at > frames:
                break
    ops = []
    for k in range(frames + 1):
        dt = rng.choice([4, 8, 16, 16, 32, 48]) if k else 0
        go = when[k]
        rng.shuffle(go)
        ops.append(dict(o="step" if k else "init", go=go, dt=dt, d=[E["v"] * dt * 64 for E in ents]))
    sc.update(ent=ents, plan=plans)
    return dict(sc=sc, ops=ops, names=net.names, jnames=net.jnames)


def position(case, w):
    return '<Position><LanePosition roadId="%s" laneId="%d" s="%r"/></Position>' % (case["names"][w["r"] - 1], w["lane"], w["s"] / U)


def body(case, p):
    if p["k"] == "acquire":
        x = "<AcquirePositionAction>%s</AcquirePositionAction>" % position(case, p["wp"][0])
    else:
        x = '<AssignRouteAction><Route name="r" closed="false"><ParameterDeclarations/>%s</Route></AssignRouteAction>' % "".join('<Waypoint routeStrategy="shortest">%s</Waypoint>' % position(case, w) for w in p["wp"])
    return "<PrivateAction><RoutingAction>%s</RoutingAction></PrivateAction>" % x


def xml(case):
    sc = case["sc"]
    names = ["V%d" % (e + 1) for e in range(len(sc["ent"]))]
    init, gs, v = {}, "", ""
    for e, E in enumerate(sc["ent"]):
        init[names[e]] = osc.teleport_lane(E["lane"], E["s"] / U, road=case["names"][E["r"] - 1]) + osc.speed(float(E["v"])) + "".join(body(case, sc["plan"][n - 1]) for n in case["ops"][0]["go"] if sc["plan"][n - 1]["e"] == e + 1)
    for n, p in enumerate(sc["plan"]):
        if n + 1 not in case["ops"][0]["go"]:
            gs += osc.group("G%d" % (n + 1), [osc.event("E%d" % (n + 1), [body(case, p)], osc.trigger(osc.varcond("go%d" % (n + 1), 1)))], ["V%d" % p["e"]])
            v += osc.intvar("go%d" % (n + 1))
    if not gs:
        gs = osc.group("G0", [osc.event("E0", [osc.NOP], osc.trigger(osc.cond('<SimulationTimeCondition value="1e6" rule="greaterThan"/>')))], ["V1"])
    return osc.scenario([(n, osc.veh(n)) for n in names], init, osc.act("A", [gs]), variables=v, road="r.xodr", minor=3)


def job(case, emit):
    L = esm.load()
    L.SE_SetOptionPersistent("disable_stdout")
    open("s.xosc", "w").write(xml(case))
    open("r.xodr", "w").write(roadnet.xodr(case["sc"], case["names"], case["jnames"]))
    if L.SE_Init("s.xosc", 0, 0, 0, 0) != 0:
        emit([[BAD]])
        return
    num = {int(n): i + 1 for i, n in enumerate(case["names"])}
    u = lambda x: BAD if not isinstance(x, (int, float)) or x != x or abs(x) > 1e6 else round(x * U)
    for op in case["ops"]:
        if op["o"] == "step":
            for n in op["go"]:
                L.SE_SetVariableInt("go%d" % n, 1)
            L.SE_StepDT(float(op["dt"] / 16))
        out = []
        for e in range(len(case["sc"]["ent"])):
            st = L.vf_obj(e)
            n = L.SE_GetNumberOfRoutePoints(e)
            rs = []
            for k in range(min(n, 60)):
                p = L.vf_routepoint(e, k)
                r = num.get(p["road"], 0) if p["rc"] == 0 else BAD
                if not rs or rs[-1] != r:
                    rs.append(r)
            out.append([num.get(st["road"], 0), st["lane"], u(st["s"]), u(L.SE_GetRouteTotalLength(e)) if n else 0] + rs)
        emit(out)
    L.SE_Close()


def run(wd):
    def f(cases):
        return [(rc, dict(sc=c["sc"], ops=c["ops"], obs=lines)) for c, (rc, lines) in zip(cases, esm.run(job, cases, wd))]
    return f


def check(prop, tier):
    chk = vf.Check(prop, tier)
    quick = tier == "quick"
    vf.build()
    with vf.Scratch() as wd:
        vf.model(chk, "RouteMC", INV, wd, "CONSTANT Depth = %d" % (2 if quick else 3), timeout=3000)
        rng = random.Random("%s-%d" % (prop, vf.seed()))
        for b in range(1 if quick else 10):
            cases = [gen(rng) for _ in range(600)]
            runs, bad = vf.conform(chk, "RouteTrace", cases, run(wd), wd, "entities with routes", describe=lambda c: dict(case=c, xosc=xml(c), xodr=roadnet.xodr(c["sc"], c["names"], c["jnames"])))
            chk.sample(dict(roads=len(cases[0]["sc"]["roads"]), entities=cases[0]["sc"]["ent"], plans=cases[0]["sc"]["plan"][:2], operations=cases[0]["ops"][:3], results=runs[0][1]["obs"][:3]))
            if bad:
                break
    chk.assum = ["straight roads, right hand traffic, entities that drive in the direction of their lane; what happens at the end of a road, on a route that uses a road twice and after a route that cannot be driven was given up is left open",
                 "positions and route lengths are compared within 3/1024 m"]
    return chk.finish()
