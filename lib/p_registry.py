"""P15: entities seen and controlled from outside (Registry.tla)."""
import ctypes as C, math, random
import vf, esm, osc
from p_motion import units, BAD

M = 4096
INV = ["IdsStable", "ListSound", "ReportShows", "OthersUntouched", "OdometerGrows", "NobodyElseMoves", "CalledOnce", "DerivedFollowsMotion"]
ANG = [0.0, math.pi / 2, math.pi, 3 * math.pi / 2, math.atan2(4, 3), 2 * math.pi - math.atan2(3, 4)]
NAMES = ["V1", "V2", "A", "B", "C"]


def gen(rng):
    # what the generator remembers of an object: (type, x)
    objs = {0: [0, 1000], 1: [0, 2000]}
    nid, cbs = 2, 0
    ops = [dict(o="init")]
    y = lambda: rng.choice([-11, -9, -7, -5, -3, -1, 1, 3, 5, 7, 9, 11]) * M + rng.choice([0, 0, 1024, -2048])
    lane = lambda: rng.choice([-3, -2, -1, 1, 2, 3])
    off = lambda: rng.choice([0, 0, 1, -1]) * M
    num = lambda: rng.choice([0, 1, 2, 5, 10, -3, 20]) * M + rng.choice([0, 512])

    def report(i, fresh=False):
        t = objs[i][0]
        if t == 0 or (t == 3 and not fresh):      # default control
            k = rng.choice(["speed", "lat", "latlane", "vel", "acc", "rate", "wheel", "full", "snap", "lock"])
            if k == "full":
                if rng.random() < 0.5:
                    ops.append(dict(o="pos", id=i, x=objs[i][1] * M + rng.randint(0, 8) * 1024, y=y(), h=1))
                else:
                    ops.append(dict(o="lane", id=i, lane=lane(), off=off(), s=objs[i][1] * M + rng.randint(0, 8) * 1024))
                ops.append(dict(o="speed", id=i, v=rng.choice([0, 3, 8]) * M))
                if rng.random() < 0.7:
                    ops.append(dict(o="vel", id=i, vx=num(), vy=num(), vz=0))
                return
        elif fresh:
            k = rng.choice(["pos", "pos", "posz", "lane"])
        else:
            k = rng.choice(["pos", "pos", "pos", "posz", "lane", "speed", "vel", "acc", "rate", "wheel", "lat", "latlane", "snap", "lock"])
        if k in ("pos", "posz"):
            objs[i][1] += rng.choice([0, 1, 2, 4, -1])
            op = dict(o=k, id=i, x=objs[i][1] * M + rng.choice([0, 256, 1024]), y=y(), h=1 if t == 3 else rng.randint(1, len(ANG)))
            if k == "posz":
                op["z"] = rng.choice([0, 1, -1, 2]) * M // 2
        elif k == "lane":
            op = dict(o=k, id=i, lane=lane(), off=off(), s=objs[i][1] * M + rng.choice([0, 256, 1024]))
        elif k == "lat":
            op = dict(o=k, id=i, t=y())
        elif k == "latlane":
            op = dict(o=k, id=i, lane=lane(), off=off())
        elif k == "speed":
            op = dict(o=k, id=i, v=rng.choice([0, 3, 8, 15, -2]) * M)
        elif k == "vel":
            op = dict(o=k, id=i, vx=num(), vy=num(), vz=num())
        elif k == "acc":
            op = dict(o=k, id=i, ax=num(), ay=num())
        elif k == "rate":
            op = dict(o=k, id=i, hr=rng.choice([0, 1, -1, 2]) * 1000)
        elif k == "wheel":
            op = dict(o=k, id=i, rot=rng.choice([0, 1000, 9000]), angle=rng.choice([0, 500, -700]))
        else:
            op = dict(o=k, id=i)
        ops.append(op)

    gone = False
    for _ in range(rng.randint(12, 30)):
        r = rng.random()
        if r < 0.14 and nid < 7:
            ty = rng.choice([1, 1, 2, 3])
            ops.append(dict(o="add", type=ty, name=rng.choice([0, 0, 3, 4, 5, 3])))
            objs[nid] = [ty, 1200 + 150 * nid]
            nid += 1
            report(nid - 1, True)
        elif r < 0.21:
            c = [i for i in objs if i > 1]
            i = rng.choice(c) if c and rng.random() < 0.8 else rng.choice([nid, nid + 3] + [j for j in range(2, nid) if j not in objs])
            ops.append(dict(o="del", id=i))
            objs.pop(i, None)
        elif r < 0.27 and cbs < 4:
            cbs += 1
            ops.append(dict(o="cb", id=rng.choice(list(objs)), tag=cbs))
        elif r < 0.29:
            ops.append(dict(o="speed", id=rng.choice([j for j in range(2, nid) if j not in objs] or [nid]), v=M))
        elif r < 0.62:
            for _ in range(rng.randint(1, 3)):
                report(rng.choice(list(objs)))
        else:
            g = rng.choice([1, 2]) if rng.random() < 0.3 else 0
            ops.append(dict(o="step", dt=rng.choice([0, 1, 2, 2, 4, 8]), g=g))
            if g:
                if g == 2 and gone:
                    objs[1][1] = 3000
                gone = g == 1
                ops.append(dict(o="step", dt=rng.choice([1, 2, 4]), g=0))
    ops.append(dict(o="step", dt=2, g=0))
    return dict(sc=dict(v0=[rng.choice([0, 4, 10]) * M, rng.choice([0, 0, 6, 12]) * M]), ops=ops)


def road():
    ln = lambda i: '<lane id="%d" type="driving" level="false"><width sOffset="0" a="4" b="0" c="0" d="0"/></lane>' % i
    return ('<?xml version="1.0"?><OpenDRIVE><header revMajor="1" revMinor="5" name="" version="1" date="" north="0" south="0" east="0" west="0"/>'
            '<road name="" length="5000" id="1" junction="-1"><planView><geometry s="0" x="0" y="0" hdg="0" length="5000"><line/></geometry></planView><elevationProfile/><lateralProfile/>'
            '<lanes><laneSection s="0"><left>%s</left><center><lane id="0" type="none" level="false"/></center><right>%s</right></laneSection></lanes></road></OpenDRIVE>') % (
        "".join(ln(i) for i in (3, 2, 1)), "".join(ln(-i) for i in (1, 2, 3)))


def xml(case):
    v0 = case["sc"]["v0"]
    ents = [("V1", osc.veh("c1")), ("V2", osc.veh("c2"))]
    init = {"V1": osc.teleport_lane(-1, 1000.0) + osc.speed(v0[0] / M), "V2": osc.teleport_lane(-2, 2000.0) + osc.speed(v0[1] / M)}
    ent = lambda body: '<GlobalAction><EntityAction entityRef="V2">%s</EntityAction></GlobalAction>' % body
    ev = [osc.event("E1", ent("<DeleteEntityAction/>"), osc.trigger(osc.varcond("go", 1)), n=99),
          osc.event("E2", ent('<AddEntityAction><Position><LanePosition roadId="1" laneId="-2" offset="0" s="3000"/></Position></AddEntityAction>'), osc.trigger(osc.varcond("go", 2)), n=99)]
    return osc.scenario(ents, init, osc.act("A", [osc.group("G", ev, ["V1"])]), variables=osc.intvar("go"), road="r.xodr")


def vec(L, f, i):
    a = [C.c_double() for _ in range(3)]
    getattr(L, f)(i, *[C.byref(x) for x in a])
    return [x.value for x in a]


def job(case, emit):
    L = esm.load()
    L.SE_SetOptionPersistent("disable_stdout")
    open("s.xosc", "w").write(xml(case))
    open("r.xodr", "w").write(road())
    if L.SE_Init("s.xosc", 0, 0, 0, 0) != 0:
        emit([BAD])
        return
    nid = 2
    z0 = lambda v: 0 if abs(v) < 1e-6 else v
    for op in case["ops"]:
        o, i, f = op["o"], op.get("id"), lambda k: op[k] / M
        r = 0
        if o == "add":
            r = L.SE_AddObject(None if op["name"] == 0 else NAMES[op["name"] - 1], op["type"], 0, 0, -1, "")
            nid += 1
        elif o == "del":
            r = L.SE_DeleteObject(i)
        elif o == "pos":
            r = L.SE_ReportObjectPosXYH(i, f("x"), f("y"), ANG[op["h"] - 1])
        elif o == "posz":
            r = L.SE_ReportObjectPos(i, f("x"), f("y"), f("z"), ANG[op["h"] - 1], 0.0, 0.0)
        elif o == "lane":
            r = L.SE_ReportObjectRoadPos(i, 1, op["lane"], f("off"), f("s"))
        elif o == "lat":
            r = L.SE_ReportObjectLateralPosition(i, f("t"))
        elif o == "latlane":
            r = L.SE_ReportObjectLateralLanePosition(i, op["lane"], f("off"))
        elif o == "speed":
            r = L.SE_ReportObjectSpeed(i, f("v"))
        elif o == "vel":
            r = L.SE_ReportObjectVel(i, f("vx"), f("vy"), f("vz"))
        elif o == "acc":
            r = L.SE_ReportObjectAcc(i, f("ax"), f("ay"), 0.0)
        elif o == "rate":
            r = L.SE_ReportObjectAngularVel(i, f("hr"), 0.0, 0.0)
        elif o == "wheel":
            r = L.SE_ReportObjectWheelStatus(i, f("rot"), f("angle"))
        elif o == "snap":
            r = L.SE_SetSnapLaneTypes(i, -1)
        elif o == "lock":
            r = L.SE_SetLockOnLane(i, False)
        elif o == "cb":
            L.vf_register_obj(i, op["tag"])
        elif o == "step":
            L.SE_SetVariableInt("go", op["g"])
            L.vf_drain()
            L.SE_StepDT(op["dt"] / 16)
        n = L.SE_GetNumberOfObjects()
        ob = [r, n] + [L.SE_GetId(k) for k in range(n)]
        for k in range(nid):
            s = L.vf_obj(k)
            if s["rc"]:
                ob += [0] * 19
                continue
            v, a, w = vec(L, "SE_GetObjectVelocityGlobalXYZ", k), vec(L, "SE_GetObjectAccelerationGlobalXYZ", k), vec(L, "SE_GetObjectAngularVelocity", k)
            nm = L.SE_GetObjectName(k)
            nm = NAMES.index(nm) + 1 if nm in NAMES else 10 + int(nm[4:]) if nm.startswith("obj_") else -1
            ob += [1] + [units(z0(q)) for q in (s["x"], s["y"], s["z"], math.cos(s["h"]), math.sin(s["h"]), s["speed"], v[0], v[1], v[2], a[0], a[1], w[0], L.SE_GetObjectOdometer(k), s["wr"], s["wa"])] + [s["lane"], units(s["s"]), nm]
        ob += [L.SE_GetIdByName(q) for q in NAMES]
        for c in L.vf_drain():
            if c[0] == "o":
                ob += [c[1], c[2], units(c[3]), units(c[4])]
        emit(ob)
    L.SE_Close()


def run(wd):
    def f(cases):
        return [(rc, dict(sc=c["sc"], ops=c["ops"], obs=lines)) for c, (rc, lines) in zip(cases, esm.run(job, cases, wd))]
    return f


def check(prop, tier):
    chk = vf.Check(prop, tier)
    quick = tier == "quick"
    vf.build()
    with vf.Scratch() as wd:
        vf.model(chk, "RegistryMC", INV, wd, "CONSTANT Depth = %d" % (4 if quick else 5), timeout=3000)
        rng = random.Random("%s-%d" % (prop, vf.seed()))
        for b in range(1 if quick else 10):
            cases = [gen(rng) for _ in range(500)]
            runs, bad = vf.conform(chk, "RegistryTrace", cases, run(wd), wd, "entities from outside", describe=lambda c: dict(case=c, xosc=xml(c), xodr=road()))
            chk.sample(dict(operations=cases[0]["ops"][:6], results=runs[0][1]["obs"][:3]))
            if bad:
                break
    chk.assum = ["straight road, flat, constant lane widths", "frame times are multiples of 1/16 s"]
    return chk.finish()
