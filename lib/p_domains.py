"""P07, all kinds of private actions: which of them run (Domains.tla)."""
import random
import vf, esm, osc
from p_motion import BAD
import p_lateral

def road():
    return p_lateral.road(dict(w=dict(l=[4 * 4096] * 3, r=[4 * 4096] * 3)))


INV = ["OneEach", "Undisturbed", "Started", "EndedByRival"]
LONG, LAT = "long", "lat"
#        domains, goes on until ended
KINDS = {"speed": ([LONG], 1), "profile": ([LONG], 1), "dist": ([LONG], 1), "sync": ([LONG], 1), "change": ([LAT], 1), "offset": ([LAT], 1), "traj": ([LONG, LAT], 1),
         "jump": ([LONG], 0), "side": ([LAT], 0), "teleport": ([LONG, LAT], 0), "acquire": ([LONG], 0), "route": ([], 0), "visible": ([], 0), "pedal": ([LONG], 0), "wheel": ([LAT], 0), "release": ([], 0), "activate": ([], 0), "random": ([], 0)}
P = "<PrivateAction>%s</PrivateAction>"
LANEPOS = '<Position><LanePosition roadId="1" laneId="%d" s="%r"/></Position>'


def body(k, e, ne):
    other = "V%d" % (e % ne + 1)
    if k == "speed":
        return osc.speed(11.0, "linear", "time", 1000)
    if k == "jump":
        return osc.speed(9.0)
    lg, lt, rt, ct = ((P % ("<%s>%%s</%s>" % (n, n))) for n in ("LongitudinalAction", "LateralAction", "RoutingAction", "ControllerAction"))
    if k == "profile":
        return lg % '<SpeedProfileAction followingMode="position"><SpeedProfileEntry speed="10" time="500"/><SpeedProfileEntry speed="12" time="500"/></SpeedProfileAction>'
    if k == "dist":
        return lg % ('<LongitudinalDistanceAction entityRef="%s" distance="100" freespace="false" continuous="true" coordinateSystem="entity" displacement="any"/>' % other)
    if k == "sync":
        return P % ('<SynchronizeAction masterEntityRef="%s"><TargetPositionMaster>%s</TargetPositionMaster><TargetPosition>%s</TargetPosition></SynchronizeAction>' % (other, LANEPOS % (-1, 4500.0), LANEPOS % (-1, 4000.0))).replace("<Position>", "").replace("</Position>", "")
    if k == "change":
        return lt % '<LaneChangeAction><LaneChangeActionDynamics dynamicsShape="linear" value="1000" dynamicsDimension="time"/><LaneChangeTarget><AbsoluteTargetLane value="-1"/></LaneChangeTarget></LaneChangeAction>'
    if k in ("offset", "side"):
        return lt % ('<LaneOffsetAction continuous="false"><LaneOffsetActionDynamics maxLateralAcc="%s" dynamicsShape="%s"/><LaneOffsetTarget><AbsoluteTargetLaneOffset value="%s"/></LaneOffsetTarget></LaneOffsetAction>' % (("0.000001", "sinusoidal", "1.5") if k == "offset" else ("1", "step", "-1")))
    if k == "traj":
        v = "".join('<Vertex time="%d"><Position><WorldPosition x="%d" y="%d"/></Position></Vertex>' % (t, 100 + 300 * e + t, -7) for t in (0, 1000))
        return rt % ('<FollowTrajectoryAction><Trajectory name="t" closed="false"><ParameterDeclarations/><Shape><Polyline>%s</Polyline></Shape></Trajectory>'
                     '<TimeReference><Timing domainAbsoluteRelative="relative" scale="1" offset="0"/></TimeReference><TrajectoryFollowingMode followingMode="position"/></FollowTrajectoryAction>' % v)
    if k == "teleport":
        return osc.teleport_lane(-2, 150.0 + 300 * e)
    if k == "acquire":
        return rt % ("<AcquirePositionAction>%s</AcquirePositionAction>" % (LANEPOS % (-1, 4000.0)))
    if k == "route":
        return rt % ('<AssignRouteAction><Route name="r" closed="false"><ParameterDeclarations/>%s</Route></AssignRouteAction>' % "".join('<Waypoint routeStrategy="shortest">%s</Waypoint>' % (LANEPOS % (-1, s)) for s in (50.0, 4000.0)))
    if k == "random":
        return rt % "<RandomRouteAction/>"
    if k == "visible":
        return P % '<VisibilityAction graphics="true" traffic="true" sensors="true"/>'
    if k in ("pedal", "wheel", "release"):
        return ct % ('<OverrideControllerValueAction>%s</OverrideControllerValueAction>' % dict(pedal='<Brake value="0.5" active="true"/>', wheel='<SteeringWheel value="0.5" active="true"/>', release='<Throttle value="0.5" active="false"/>')[k])
    return ct % '<ActivateControllerAction lateral="false" longitudinal="false"/>'


def gen(rng):
    ne = rng.randint(1, 3)
    kinds = [k for k in KINDS if ne > 1 or k not in ("dist", "sync")]
    on = [k for k in kinds if KINDS[k][1]]
    act = []
    for e in range(1, ne + 1):
        free = {LONG, LAT}
        for k in rng.sample([k for k in on if k not in ("dist", "sync")], rng.choice([0, 1, 1, 2])):
            if set(KINDS[k][0]) <= free:
                free -= set(KINDS[k][0])
                act.append(dict(k=k, e=e, ev=0))
    nev = rng.randint(3, 9)
    for ev in range(1, nev + 1):
        e = rng.randint(1, ne)
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            act.append(dict(k=rng.choice(on + kinds), e=e, ev=ev))
    for a in act:
        a["dom"], a["on"], a["own"] = KINDS[a["k"]][0], bool(KINDS[a["k"]][1]), a["k"] == "sync"
    ops = [dict(o="init", go=[])]
    for _ in range(rng.randint(6, 14)):
        go = [rng.randint(1, nev) for _ in range(rng.choice([0, 1, 1, 1, 2, 3]))]
        ops.append(dict(o="step", go=go, dt=rng.choice([1, 2, 4, 0])))
    return dict(sc=dict(ne=ne, nev=nev, act=act), ops=ops)


def xml(case):
    sc = case["sc"]
    ents = [("V%d" % e, osc.veh("c%d" % e, vmax=60.0, amax=10.0, dmax=10.0)) for e in range(1, sc["ne"] + 1)]
    init = {"V%d" % e: osc.teleport_lane(-2, 100.0 + 300 * e) + ("" if any(a["e"] == e and a["ev"] == 0 and a["k"] in ("speed", "profile") for a in sc["act"]) else osc.speed(8.0)) + "".join(body(a["k"], e, sc["ne"]) for a in sc["act"] if a["e"] == e and a["ev"] == 0) for e in range(1, sc["ne"] + 1)}
    gs, v = "", ""
    for ev in range(1, sc["nev"] + 1):
        mine = [a for a in sc["act"] if a["ev"] == ev]
        gs += osc.group("G%d" % ev, [osc.event("E%d" % ev, [body(a["k"], a["e"], sc["ne"]) for a in mine], osc.trigger(osc.varcond("go%d" % ev, 1)), n=99)], ["V%d" % mine[0]["e"]])
        v += osc.intvar("go%d" % ev)
    return osc.scenario(ents, init, osc.act("A", [gs]), variables=v, road="r.xodr", minor=3)


def job(case, emit):
    L = esm.load()
    sc = case["sc"]
    L.SE_SetOptionPersistent("disable_stdout")
    L.vf_register_early(None)
    open("s.xosc", "w").write(xml(case))
    open("r.xodr", "w").write(road())
    if L.SE_Init("s.xosc", 0, 0, 0, 0) != 0:
        emit([BAD])
        return
    names, n = {}, {}
    for i, a in enumerate(sc["act"]):
        if a["ev"]:
            names["E%d_a%d" % (a["ev"], n.get(a["ev"], 0))] = i
            n[a["ev"]] = n.get(a["ev"], 0) + 1
        else:
            names["Init V%d %s" % (a["e"], {"traj": "RoutingAction", "change": "LateralAction", "offset": "LateralAction"}.get(a["k"], "LongitudinalAction"))] = i
    run = [0] * len(sc["act"])
    for op in case["ops"]:
        if op["o"] == "step":
            for ev in range(1, sc["nev"] + 1):
                L.SE_SetVariableInt("go%d" % ev, int(ev in op["go"]))
            L.SE_StepDT(op["dt"] / 16)
        for e in L.vf_drain():
            if e[0] == "e" and e[4] in names:
                run[names[e[4]]] = int(e[3] == 2)
        emit(list(run))
    L.SE_Close()


def run(wd):
    def f(cases):
        return [(rc, dict(sc=c["sc"], ops=c["ops"], obs=lines)) for c, (rc, lines) in zip(cases, esm.run(job, cases, wd))]
    return f


def add(chk, prop, quick, wd):
    vf.model(chk, "DomainsMC", INV, wd, "CONSTANT Depth = %d" % (3 if quick else 4), timeout=3000)
    rng = random.Random("%s-domains-%d" % (prop, vf.seed()))
    for b in range(1 if quick else 6):
        cases = [gen(rng) for _ in range(300)]
        runs, bad = vf.conform(chk, "DomainsTrace", cases, run(wd), wd, "all kinds of private actions", describe=lambda c: dict(case=c, xosc=xml(c), xodr=road()))
        chk.sample(dict(actions=cases[0]["sc"]["act"][:4], operations=cases[0]["ops"][:4], results=runs[0][1]["obs"][:4]))
        if bad:
            break
