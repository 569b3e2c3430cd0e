"""P19: runs in one process (Session.tla)."""
import ctypes as C, glob, json, os, random, zlib
import vf, esm, osc
import p_lateral, p_motion, p_cond, p_record, p_registry

INV = ["OwnFramesOnly", "BeginsAtTheBeginning", "OffMeansOff", "FailedLoadLeavesNothing"]
PROP = ["AskingChangesNothing"]
BAD = -99999999
# not repeatable by nature, or a distribution file (P17)
SKIP = ("cut-in_parameter_set", "sumo", "_hid", "race_", "dummy_mw")
BROKEN = ["missing", "empty", "badxml", "noroad", "badref", "badaction", "badroadfile"]


def files():
    f = []
    for d in ("/resources/xosc/*.xosc", "/EnvironmentSimulator/Unittest/xosc/*.xosc"):
        f += sorted(glob.glob(vf.REPO + d))
    return [x for x in f if not any(s in os.path.basename(x) for s in SKIP)]


def scenario(r, fs):
    """how it is loaded, what is done in which frame"""
    q = r.random()
    if q < 0.55:
        src = ["file", r.choice(fs)]
    elif q < 0.85:
        m = r.choice(["p_lateral", "p_motion", "p_cond", "p_record", "p_registry"])
        src = ["gen", m, r.randrange(10 ** 6)]
    else:
        src = ["broken", r.choice(BROKEN)]
    n = r.randint(4, 25)
    dts = r.choice([[100], [50], [10, 100, 200], [33], [500, 0, 100]])
    ev = [[] for _ in range(n)]
    for _ in range(r.choice([0, 0, 1, 3, 6])):
        ev[r.randrange(n)].append([r.choice(["speed", "lane", "offset", "injspeed", "add", "del", "pos", "var", "light"]), r.randrange(2), r.randint(0, 30)])
    return dict(src=src, how=r.choice([0, 0, 1, 2] if src[0] != "file" else [0, 0, 1]), seed=r.randint(1, 5), dt=[r.choice(dts) for _ in range(n)], ev=ev, rec=r.random() < 0.15, coll=r.random() < 0.2)


def gen(r, fs=[]):
    fs = fs or files()
    ss = [scenario(r, fs) for _ in range(r.randint(2, 4))]
    ops = [dict(o="ref", s=i + 1) for i in range(len(ss))]
    on, k = 0, 0
    if r.random() < 0.5:
        ops.append(dict(o="ask"))
    for _ in range(r.randint(3, 7)):
        s = r.randint(1, len(ss))
        if on and r.random() < 0.7:
            ops.append(dict(o="close"))
            on = 0
            if r.random() < 0.4:
                ops.append(dict(o=r.choice(["ask", "step", "close", "other"])))
        ops.append(dict(o="init", s=s))
        on = s
        full = r.random() < 0.5
        for j in range(len(ss[s - 1]["dt"]) if full else r.randrange(len(ss[s - 1]["dt"]) + 1)):
            ops.append(dict(o="step"))
            if r.random() < 0.03:
                ops.append(dict(o="ask"))
    ops.append(dict(o="close"))
    ops.append(dict(o="ask"))
    return dict(ss=ss, ops=ops)


DOC = {}


def document(src):
    if src[0] == "gen":
        m = globals()[src[1]]
        c = m.gen(random.Random(src[2]))
        return m.xml(c)
    good = osc.scenario([("V1", osc.veh())], {"V1": osc.teleport_lane(-1, 100.0) + osc.speed(10)}, "")
    b = src[1]
    return {"empty": "", "badxml": good[:len(good) // 2], "noroad": good.replace('.xodr"', '_not.xodr"'), "badref": good.replace('<Private entityRef="V1"', '<Private entityRef="W1"'),
            "badaction": good.replace("<SpeedAction>", "<SpedAction>").replace("</SpeedAction>", "</SpedAction>"), "badroadfile": good.replace('.xodr"', '.empty.xodr"')}.get(b, "")


def asks(L, oid):
    """the fixed list of calls; they must all be refused"""
    B = lambda: C.create_string_buffer(65536)
    n = lambda x: BAD if x != x else int(x)
    s = lambda x: 0 if x is None else 1 if x == "" else 2
    run = oid >= 0
    out = [] if run else [L.SE_StepDT(0.1), L.SE_Step(), n(L.SE_GetSimulationTime()), L.SE_GetQuitFlag(), L.SE_GetPauseFlag(), s(L.SE_GetODRFilename()), L.SE_GetNumberOfParameters(), L.SE_GetNumberOfVariables(),
                           L.SE_GetNumberOfObjects(), L.SE_GetId(0), L.SE_AddObject("x", 1, 0, 0, 0, ""), L.SE_GetNumberOfObjectSensors(), L.SE_SetVariableInt("a", 1), L.SE_GetVariableInt("a", B()),
                           L.SE_SetParameterInt("a", 1), L.SE_GetParameterInt("a", B()), int(L.SE_InjectedActionOngoing(-1))]
    i = oid if run else 0
    out += [L.SE_GetIdByName("nobody_"), L.SE_GetObjectState(i, B()), L.SE_GetObjectLightState(i, 0, B()), L.SE_GetObjectRouteStatus(i), L.SE_ObjectCanChangeLanes(i), L.SE_GetOverrideActionStatus(i, B()),
            s(L.SE_GetObjectTypeName(i)), s(L.SE_GetObjectName(i)), s(L.SE_GetObjectModelFileName(i)), L.SE_ObjectHasGhost(i), L.SE_GetObjectGhostId(i), L.SE_GetObjectGhostState(i, B()), L.SE_GetObjectNumberOfCollisions(i),
            L.SE_GetObjectCollision(i, 0), n(L.SE_GetObjectOdometer(i)), L.SE_GetObjectVelocityGlobalXYZ(i, B(), B(), B()), L.SE_GetObjectAngularVelocity(i, B(), B(), B()),
            L.SE_GetObjectAngularAcceleration(i, B(), B(), B()), n(L.SE_GetObjectAcceleration(i)), L.SE_GetObjectAccelerationGlobalXYZ(i, B(), B(), B()), L.SE_GetObjectAccelerationLocalLatLong(i, B(), B()),
            L.SE_GetObjectNumberOfWheels(i), L.SE_GetObjectWheelData(i, 0, B()), L.SE_DeleteObject(i), L.SE_ReportObjectSpeed(i, 1.0), L.SE_ReportObjectPosXYH(i, 1.0, 1.0, 1.0),
            L.SE_ReportObjectRoadPos(i, 1, -1, 0.0, 1.0), L.SE_ReportObjectLateralPosition(i, 1.0), L.SE_ReportObjectLateralLanePosition(i, -1, 1.0), L.SE_ReportObjectVel(i, 1.0, 1.0, 1.0), L.SE_ReportObjectAcc(i, 1.0, 1.0, 1.0),
            L.SE_ReportObjectAngularVel(i, 1.0, 1.0, 1.0), L.SE_ReportObjectAngularAcc(i, 1.0, 1.0, 1.0), L.SE_ReportObjectWheelStatus(i, 1.0, 1.0), L.SE_SetSnapLaneTypes(i, 1), L.SE_SetLockOnLane(i, True),
            L.SE_GetDistanceToObject(i, i, False, B()), L.SE_GetNumberOfRoutePoints(i), n(L.SE_GetRouteTotalLength(i)), L.SE_GetRoutePoint(i, 0, B()),
            L.SE_GetRoadInfoAtDistance(i, 10.0, B(), 0, True), L.SE_GetNumberOfProperties(i), s(L.SE_GetObjectPropertyName(i, 0)), s(L.SE_GetObjectPropertyValue(i, "a"))]
    return out


NORUN = [-1, -1, 0, -1, -1, 0, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, 0]
ANY = [-1] * 6 + [0] * 4 + [-1] * 4 + [BAD, -1, -1, -1, BAD] + [-1] * 23 + [1, 1]


class Run:
    """executes one scenario with its inputs"""
    def __init__(self, L, c, s):
        self.L, self.d, self.k, self.added = L, c, 0, []

    def init(self):
        L, d = self.L, self.d
        src = d["src"]
        if src[0] == "file":
            f, text = src[1], None
        else:
            text = document(src)
            f = "gen_%d.xosc" % (zlib.crc32(text.encode()) & 0xffff) if src[1] != "missing" else "not_there.xosc"
            if src[1] != "missing":
                open(f, "w").write(text)
            if src[1] == "badroadfile":
                import re
                x = re.search(r'filepath="([^"]*\.empty\.xodr)"', text)
                if x:
                    text = text.replace(x.group(1), os.path.join(os.getcwd(), "e.empty.xodr"))
                    open("e.empty.xodr", "w").write("<?xml?>")
                    open(f, "w").write(text)
        L.vf_drain()
        L.vf_register_early(None)
        L.SE_SetSeed(d["seed"])
        L.SE_CollisionDetection(bool(d["coll"]))
        if d["how"] == 1:
            rc = L.SE_Init(f, 0, 0, 0, 0)
        elif d["how"] == 2 and text:
            rc = L.SE_InitWithString(text, 0, 0, 0, 0)
        else:
            a = ["--osc", f, "--disable_stdout", "--headless", "--seed", str(d["seed"])] + (["--record", "x.dat"] if d["rec"] else [])
            rc = L.SE_InitWithArgs(len(a), (C.c_char_p * len(a))(*[x.encode() for x in a]))
        return rc

    def shown(self):
        L = self.L
        st = [[o["oid"], o["name"]] + [None if o[k] is None else round(o[k], 5) for k in ("x", "y", "z", "h", "p", "r", "s", "off", "speed", "wa", "wr")] + [o["road"], o["lane"], L.SE_GetObjectNumberOfCollisions(o["oid"])] for o in L.vf_objs()]
        v = [round(L.SE_GetSimulationTime(), 6), L.SE_GetQuitFlag(), L.SE_GetNumberOfParameters(), L.SE_GetNumberOfVariables(), os.path.basename(L.SE_GetODRFilename() or ""), [e for e in L.vf_drain() if e[0] == "e"], st]
        if os.environ.get("VERIF_SHOW"):
            open(os.environ["VERIF_SHOW"], "a").write(json.dumps([self.d["src"], v]) + "\n")
        return zlib.crc32(json.dumps(v).encode()) & 0x3fffffff

    def step(self):
        L, d, k = self.L, self.d, self.k
        for e, i, v in d["ev"][k]:
            oid = L.SE_GetId(i)
            if e == "add":
                a = L.SE_AddObject("X%d" % len(self.added), 1, 0, 0, v % 4, "")
                self.added.append(a)
                L.SE_ReportObjectPosXYH(a, float(v), -2.0, 0.0)
            elif e == "del" and self.added:
                L.SE_DeleteObject(self.added.pop())
            elif oid < 0:
                continue
            elif e == "speed":
                L.SE_ReportObjectSpeed(oid, float(v))
            elif e == "pos":
                L.SE_ReportObjectPosXYH(oid, 10.0 * v, -1.5, 0.0)
            elif e == "lane":
                L.vf_inject_lc(oid, 1, 1 if v % 2 else -1, v % 3, 1, 1.0 + v / 10)
            elif e == "offset":
                L.vf_inject_off(oid, v / 20, 1.0, v % 3)
            elif e == "injspeed":
                L.vf_inject_speed(oid, float(v), v % 3, v % 2, 2.0)
            elif e == "var":
                L.SE_SetVariableInt("go", v % 7)
        L.SE_StepDT(d["dt"][k] / 1000)
        self.k += 1
        return self.shown()


def fresh(L, case, s):
    """the same run in a process of its own"""
    r, w = os.pipe()
    p = os.fork()
    if p == 0:
        os.close(r)
        out = [BAD]
        try:
            x = Run(L, case["ss"][s - 1], s)
            out = [x.init()]
            if out[0] == 0:
                out.append(x.shown())
                for _ in x.d["dt"]:
                    out.append(x.step())
        finally:
            os.write(w, json.dumps(out).encode())
            os._exit(0)
    os.close(w)
    b = b""
    while True:
        q = os.read(r, 65536)
        if not q:
            break
        b += q
    os.close(r)
    st = os.waitpid(p, 0)[1]
    return json.loads(b) if st == 0 and b else [BAD]


def job(case, emit):
    L = esm.load()
    L.SE_SetOptionPersistent("disable_stdout")
    cur = None
    for op in case["ops"]:
        o = op["o"]
        if o == "ref":
            emit(fresh(L, case, op["s"]))
        elif o == "init":
            cur = Run(L, case["ss"][op["s"] - 1], op["s"])
            rc = cur.init()
            emit([0, cur.shown()] if rc == 0 else [rc])
            if rc:
                cur = None
        elif o == "step":
            emit([cur.step()] if cur else [L.SE_StepDT(0.1)])
        elif o == "close":
            L.SE_Close()
            cur = None
            emit([])
        elif o == "ask":
            emit(asks(L, 987654 if cur else -1))
        else:
            L.SE_SetSeed(99)
            L.RM_Init(osc.ROAD if hasattr(osc, "ROAD") else vf.REPO + "/resources/xodr/e6mini.xodr")
            L.RM_Close()
            emit([])


def run(wd):
    def f(cases):
        return [(rc, dict(sc=dict(norun=NORUN + ANY, noobj=ANY), ops=c["ops"], obs=lines)) for c, (rc, lines) in zip(cases, esm.run(job, cases, wd, limit=200))]
    return f


def check(prop, tier):
    chk = vf.Check(prop, tier)
    quick = tier == "quick"
    vf.build()
    with vf.Scratch() as wd:
        vf.model(chk, "SessionMC", INV, wd, "CONSTANT Depth = %d" % (7 if quick else 9), props=PROP, timeout=3000)
        rng = random.Random("%s-%d" % (prop, vf.seed()))
        fs = files()
        for b in range(1 if quick else 10):
            cases = [gen(rng, fs) for _ in range(250)]
            runs, bad = vf.conform(chk, "SessionTrace", cases, run(wd), wd, "runs in one process")
            chk.sample(dict(scenarios=[s["src"] for s in cases[0]["ss"]], operations=cases[0]["ops"][:6], results=runs[0][1]["obs"][:2]))
            if bad:
                break
    chk.assum = ["everything visible in a frame is represented by a 30 bit digest of times, states of objects (1e-5), collisions and state changes of storyboard elements"]
    return chk.finish()
