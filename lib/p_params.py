"""P16: parameters, scopes, catalogs and expressions (Params.tla)."""
import ctypes as C, math, random
import vf, esm, osc
from xml.sax.saxutils import quoteattr as q

U = 64
BAD = -99999999
LIM = 400 * U
INV = ["Balanced", "InnermostWins", "ScopesLeaveNoTrace", "OthersUntouched", "OverrideReachesAll", "AssignmentsStayLocal"]
TYN = {"i": "integer", "d": "double", "s": "string", "b": "boolean"}
NAMES = ["A", "AB", "A1", "B", "speed", "e_x", "or1", "notB"]
PREC = {"or": 1, "and": 2, "<": 3, "<=": 3, ">": 3, ">=": 3, "==": 3, "!=": 3, "+": 4, "-": 4, "*": 5, "/": 5, "%": 5, "**": 6}


class No(Exception):
    """an expression whose value is not exact or too large"""


def chk(x):
    if abs(x) > LIM:
        raise No()
    return x


def ex(a, b):
    if b == 0 or a % b:
        raise No()
    return a // b


def ev(env, e):
    """The generator's own evaluation, to keep expressions exact, in range and well-typed."""
    t = e["t"]
    if t in ("num", "str"):
        return e["v"]
    if t == "par":
        return env[e["n"]][1]
    if t == "cat":
        return ev(env, e["a"]) + ev(env, e["b"])
    f, a = e["f"], ev(env, e["a"])
    if t == "un":
        if f == "sqrt":
            if a < 0 or a > 100 * U:
                raise No()
            r = math.isqrt(a * U)
            if r * r != a * U:
                raise No()
            return r
        if f == "cospi" and a % U:
            raise No()
        return {"-": lambda: -a, "not": lambda: U * (a == 0), "round": lambda: round(a / U) * U, "floor": lambda: a // U * U, "ceil": lambda: -(-a // U) * U, "abs": lambda: abs(a),
                "sign": lambda: -U if a < 0 else U, "cospi": lambda: -U if a // U % 2 else U}[f]()
    b = ev(env, e["b"])
    if f in ("**", "pow"):
        if b < 0 or b > 4 * U or b % U:
            raise No()
        r = U
        for _ in range(b // U):
            r = chk(ex(r * a, U))
        return r
    if f == "%":
        if b == 0:
            raise No()
        return round(math.remainder(a, b))
    return chk({"+": lambda: a + b, "-": lambda: a - b, "*": lambda: ex(a * b, U), "/": lambda: ex(a * U, b), "min": lambda: min(a, b), "max": lambda: max(a, b), "<": lambda: U * (a < b), "<=": lambda: U * (a <= b),
                ">": lambda: U * (a > b), ">=": lambda: U * (a >= b), "==": lambda: U * (a == b), "!=": lambda: U * (a != b), "and": lambda: U * (a != 0 and b != 0), "or": lambda: U * (a != 0 or b != 0)}[f]())


def num(x):
    return dict(t="num", v=x)


def par(n):
    return dict(t="par", n=n)


def un(f, a):
    return dict(t="un", f=f, a=a)


def bi(f, a, b):
    return dict(t="bin", f=f, a=a, b=b)


def strv(s):
    return dict(t="str", v=[ord(c) for c in s])


class G:
    def __init__(self, rng):
        self.r = rng

    def numlit(self, whole=False):
        r = self.r
        return num(r.choice([0, 1, 2, 3, 4, 5, 7, 8, 10, 16, 25]) * U if whole or r.random() < 0.6 else r.choice([1, 2, 3, 5, 6, 10, 13]) * r.choice([U // 2, U // 4, U // 8]))

    def number(self, env, d):
        """A random number expression over the number parameters of env."""
        r = self.r
        ps = [n for n in env if env[n][0] in "id"]
        if d == 0 or r.random() < 0.15:
            return par(r.choice(ps)) if ps and r.random() < 0.65 else self.numlit()
        k = r.random()
        if k < 0.55:
            return bi(r.choice(["+", "-", "*", "/", "%", "+", "-", "*", "**"]), self.number(env, d - 1), self.number(env, d - 1))
        if k < 0.68:
            return bi(r.choice(["min", "max", "pow"]), self.number(env, d - 1), self.number(env, d - 1))
        return un(r.choice(["-", "round", "floor", "ceil", "abs", "sign", "sqrt", "cospi"]), self.number(env, d - 1))

    def boolean(self, env, d):
        r = self.r
        ps = [n for n in env if env[n][0] == "b"]
        if d == 0 or r.random() < 0.2:
            if ps and r.random() < 0.5:
                return par(r.choice(ps))
            if r.random() < 0.2:
                return dict(num(r.choice([0, U])), lit=True)
            return bi(r.choice(["<", "<=", ">", ">=", "==", "!="]), self.number(env, 1), self.number(env, 1))
        if r.random() < 0.3:
            return un("not", self.boolean(env, d - 1))
        return bi(r.choice(["and", "or"]), self.boolean(env, d - 1), self.boolean(env, d - 1))

    def string(self, env):
        r = self.r
        ps = [n for n in env if env[n][0] == "s"]
        w = lambda: strv(r.choice(["x", "Ev_", "or_else", "notch", "aa", "Car", "b_2"]))
        if ps and r.random() < 0.6:
            p = par(r.choice(ps))
            return p if r.random() < 0.5 else dict(t="cat", a=w(), b=p) if r.random() < 0.6 else dict(t="cat", a=p, b=w())
        return w()

    def expr(self, ty, env, d=None):
        d = self.r.randint(0, 3) if d is None else d
        for _ in range(60):
            try:
                e = self.string(env) if ty == "s" else self.boolean(env, d) if ty == "b" else self.number(env, d)
                v = ev(env, e)
                if ty == "i" and v % U:
                    e = un(self.r.choice(["floor", "ceil", "round"]), e)
                    v = ev(env, e)
                if ty != "s" and abs(v) > LIM:
                    raise No()
                return e
            except No:
                d = max(0, d - 1)
        return strv("x") if ty == "s" else num(U)

    # ---- printing
    def number_text(self, v):
        x = v / U
        return str(int(x)) if x == int(x) and self.r.random() < 0.7 else repr(x)

    def pr(self, e, up=0, right=False):
        """Text of an expression inside ${}; parentheses only where precedence asks for them, and sometimes elsewhere."""
        r = self.r
        sp = lambda: r.choice(["", " "])
        t = e["t"]
        if t == "num":
            if e.get("lit"):
                return "true" if e["v"] else "false"
            return self.number_text(e["v"])
        if t == "par":
            return "$" + e["n"]
        f = e["f"]
        if t == "un":
            if f == "-":
                s = "-" + self.pr(e["a"], 7)
                return "(%s)" % s if up > 4 or right or r.random() < 0.3 else s
            if f == "not":
                s = r.choice(["not ", "!"]) + self.pr(e["a"], 7) if r.random() < 0.6 else "not(" + self.pr(e["a"]) + ")"
                return "(%s)" % s if up > 2 or r.random() < 0.2 else s
            if f == "cospi":
                return "round(cos(%s*pi))" % self.pr(e["a"], 5)
            return "%s(%s%s%s)" % (f, sp(), self.pr(e["a"]), sp())
        if f in ("min", "max", "pow"):
            return "%s(%s,%s%s)" % (f, self.pr(e["a"]), sp(), self.pr(e["b"]))
        p = PREC[f]
        # chains of comparisons and of powers are always bracketed
        a = self.pr(e["a"], p + (p in (3, 6)))
        b = self.pr(e["b"], p + 1, True)
        if f in ("and", "or"):
            w = r.choice([f, "&&" if f == "and" else "||"])
            s = a + " " + w + " " + b
        else:
            s = a + sp() + f + sp() + b
        return "(%s)" % s if p < up or r.random() < 0.15 else s

    def attr(self, e, ty):
        """Text of an attribute whose value is e."""
        t = e["t"]
        if t == "par" and self.r.random() < 0.6:
            return "$" + e["n"]
        if t == "str":
            return "".join(map(chr, e["v"]))
        if t == "cat":
            one = lambda x: "$" + x["n"] if x["t"] == "par" else "".join(map(chr, x["v"]))
            return "${%s + %s}" % (one(e["a"]), one(e["b"]))
        if t == "num" and self.r.random() < 0.7:
            if ty == "b":
                return "true" if e["v"] else "false"
            return str(e["v"] // U) if ty == "i" else self.number_text(e["v"])
        return "${" + self.pr(e) + "}"


def gen(rng):
    g = G(rng)
    ops, probes = [], []
    env = [{}]            # scopes: name -> (type, value)

    def flat():
        d = {}
        for s in env:
            d.update(s)
        return d

    def decls(k, own=False, given=(), lits=False):
        """Declarations of a new innermost scope; own: only parameters of this scope are referred to."""
        out, text = [], ""
        for _ in range(k):
            n, ty = rng.choice(NAMES), rng.choice("iiddbs")
            if own and n in env[-1]:
                continue
            e = g.expr(ty, env[-1] if own else flat(), 0 if lits else None)
            out.append(dict(n=n, ty=ty, e=e))
            v = ev(env[-1] if own else flat(), e)
            gv = [x for x in given if x[0] == n]
            env[-1][n] = (ty, gv[-1][1] if gv else v)
            text += '<ParameterDeclaration name="%s" parameterType="%s" value=%s/>' % (n, TYN[ty], q(g.attr(e, ty)))
        return out, "<ParameterDeclarations>%s</ParameterDeclarations>" % text if text or rng.random() < 0.3 else ""

    def scope(k):
        env.append({})
        d, t = decls(k)
        ops.append(dict(o="open", decls=d, assign=[]))
        return t

    def close():
        env.pop()
        ops.append(dict(o="close"))

    def probe(ty, kind, e=None, envs=None, **kw):
        e = e or g.expr(ty, flat() if envs is None else envs)
        ops.append(dict(o="probe", e=e, ty=ty))
        v = ev(flat() if envs is None else envs, e)
        probes.append(dict(kind=kind, ty=ty, op=len(ops) - 1, v=v, **kw))
        return e, g.attr(e, ty)

    def clamp(e, lo, hi):
        return bi("min", bi("max", e, num(lo * U)), num(hi * U))

    def var_text(ty, v):
        return "?" if ty == "s" else ("false" if v else "true") if ty == "b" else "-7777"
    # ---- globals, overrides
    gd, gt = decls(rng.randint(1, 5))
    declared = dict(env[0])
    names = [d["n"] for d in gd]
    over, api = [], []
    for n in sorted(set(names)):
        if names.count(n) == 1 and rng.random() < 0.35:
            ty = [d["ty"] for d in gd if d["n"] == n][0]
            v = [ord(c) for c in rng.choice(["q", "zz", "Q_1"])] if ty == "s" else rng.choice([0, U]) if ty == "b" else rng.choice([0, 1, 2, 3, 6, 11]) * U if ty == "i" else rng.choice([0, 1, 3, 9, 40, 100]) * U // 4
            over.append(dict(n=n, v=dict(n=0 if ty == "s" else v, s=v if ty == "s" else [])))
            api.append(dict(n=n, ty=ty, v=v, dollar=rng.random() < 0.3))
    if over:               # what is declared follows what the application set
        env[0] = {}
        for d in gd:
            o = [a for a in api if a["n"] == d["n"]]
            try:
                v = ev(env[0], d["e"])     # also the replaced ones are evaluated
                v = o[-1]["v"] if o else v
                if d["ty"] == "i" and v % U or d["ty"] in "id" and abs(v) > LIM:
                    raise No()
            except No:
                return gen(rng)
            env[0][d["n"]] = (d["ty"], v)
    ops.append(dict(o="global", decls=gd, over=over, show=[dict(n=d["n"], ty=d["ty"]) for d in gd if names.count(d["n"]) == 1]))
    extra = ""             # variables whose declaration is a probe
    for _ in range(rng.randint(0, 2)):
        ty = rng.choice("idbs")
        e, t = probe(ty, "var")
        try:
            ev(declared, e)        # declarations are read once before the application's values and once with them
        except No:
            return gen(rng)
        extra += '<VariableDeclaration name="R%d" variableType="%s" value=%s/>' % (len(probes) - 1, TYN[ty], q(t))
    vehcat, mancat, ents, init = "", "", [], {}
    nent = rng.randint(1, 3)

    def dims(own):
        """Bounding box attributes of a vehicle, as probes."""
        out = []
        for k in rng.sample(["length", "width", "height"], 2):
            e = clamp(g.expr("d", flat() if own is None else own), 1, 9)
            out.append((k, probe("d", k, e, own, ent=len(ents))[1]))
        return dict(out)

    def vehicle(t, d, pv, name):
        return ('<Vehicle name="%s" vehicleCategory="car">%s<BoundingBox><Center x="1.5" y="0.0" z="0.75"/><Dimensions width=%s length=%s height=%s/></BoundingBox>'
                '<Performance maxSpeed="100" maxAcceleration="10" maxDeceleration="10"/><Axles><FrontAxle maxSteering="0.5" wheelDiameter="0.6" trackWidth="1.8" positionX="3.1" positionZ="0.3"/>'
                '<RearAxle maxSteering="0.0" wheelDiameter="0.6" trackWidth="1.8" positionX="0.0" positionZ="0.3"/></Axles><Properties>%s</Properties></Vehicle>') % (
            name, t, q(d.get("width", "2")), q(d.get("length", "4")), q(d.get("height", "1")), pv)

    def assigns(ds, outer):
        """Assignments to some of the parameters ds of a catalog entry, in the environment of the reference."""
        out, text, given = [], "", []
        for d in ds:
            if rng.random() < 0.6:
                e = g.expr(d["ty"], outer)
                out.append(dict(n=d["n"], e=e))
                given.append((d["n"], ev(outer, e)))
                text += '<ParameterAssignment parameterRef="%s%s" value=%s/>' % (rng.choice(["", "$"]), d["n"], q(g.attr(e, d["ty"])))
        return out, "<ParameterAssignments>%s</ParameterAssignments>" % text if text else "", given

    def entry(k):
        """A catalog entry's declarations and one reference to it: the entry's default values come first, then the assignments of the reference."""
        for _ in range(20):
            env.append({})
            ds, t = decls(k, own=True)
            env.pop()
            for _ in range(5):
                outer = flat()
                a, at, given = assigns(ds, outer)
                cur, okay = {}, True
                for d in ds:
                    gv = [x for x in given if x[0] == d["n"]]
                    try:
                        v = ev(cur, d["e"])
                        v = gv[-1][1] if gv else v
                        if d["ty"] == "i" and v % U or d["ty"] in "id" and abs(v) > LIM:
                            okay = False
                            break
                    except No:
                        okay = False
                        break
                    cur[d["n"]] = (d["ty"], v)
                if okay:
                    env.append(cur)
                    ops.append(dict(o="open", decls=ds, assign=a))
                    return t, at
        env.append({})
        ops.append(dict(o="open", decls=[], assign=[]))
        return "", ""
    for i in range(nent):
        name = "V%d" % i
        ctrl = ""
        if rng.random() < 0.4:
            t, at = entry(rng.randint(1, 3))
            pv = '<Property name="p" value=%s/>' % q(probe("s", "prop", None, env[-1], ent=i)[1])
            vehcat += vehicle(t, dims(env[-1]), pv, "c%d" % i)
            close()
            x = '<CatalogReference catalogName="VC" entryName="c%d">%s</CatalogReference>' % (i, at)
        else:
            t = scope(rng.randint(0, 3))
            pv = '<Property name="p" value=%s/>' % q(probe("s", "prop", None, None, ent=i)[1])
            x = vehicle(t, dims(None), pv, "c%d" % i)
            close()
        if rng.random() < 0.3:
            t = scope(rng.randint(1, 2))
            ctrl = '<ObjectController><Controller name="ctl%d">%s<Properties><Property name="esminiController" value="ExternalController"/></Properties></Controller></ObjectController>' % (i, t)
            close()
        ents.append((name, x + ctrl))
        pos = clamp(g.expr("d", flat()), 50, 200)
        sp = clamp(g.expr("d", flat()), 0, 20)
        init[name] = ('<PrivateAction><TeleportAction><Position><LanePosition roadId="1" laneId="-1" offset="0" s=%s/></Position></TeleportAction></PrivateAction>'
                      '<PrivateAction><LongitudinalAction><SpeedAction><SpeedActionDynamics dynamicsShape="step" value="0" dynamicsDimension="time"/><SpeedActionTarget><AbsoluteTargetSpeed value=%s/></SpeedActionTarget>'
                      '</SpeedAction></LongitudinalAction></PrivateAction>') % (q(probe("d", "s", pos, ent=i)[1]), q(probe("d", "speed", sp, ent=i)[1]))

    def noise(k, envs=None):
        """An action that is never performed but has declarations of its own."""
        kind = rng.choice(["env", "traj", "route"])
        own = envs is not None
        env.append({})
        d, t = decls(rng.randint(1, 3), own=own)
        ops.append(dict(o="open", decls=d, assign=[]))
        close()
        never = osc.trigger(osc.cond('<SimulationTimeCondition value="9999" rule="greaterThan"/>', "N%d" % k))
        wp = lambda s: '<Position><LanePosition roadId="1" laneId="-1" offset="0" s="%d"/></Position>' % s
        if kind == "env":
            a = '<GlobalAction><EnvironmentAction name="e"><Environment name="e">%s<TimeOfDay animation="false" dateTime="2020-10-01T12:00:00"/></Environment></EnvironmentAction></GlobalAction>' % t
        elif kind == "traj":
            a = ('<PrivateAction><RoutingAction><FollowTrajectoryAction><Trajectory name="t" closed="false">%s<Shape><Polyline><Vertex time="0">%s</Vertex><Vertex time="1">%s</Vertex></Polyline></Shape></Trajectory>'
                 '<TimeReference><None/></TimeReference><TrajectoryFollowingMode followingMode="position"/></FollowTrajectoryAction></RoutingAction></PrivateAction>') % (t, wp(10), wp(20))
        else:
            a = '<PrivateAction><RoutingAction><AssignRouteAction><Route name="r" closed="false">%s<Waypoint routeStrategy="shortest">%s</Waypoint><Waypoint routeStrategy="shortest">%s</Waypoint></Route></AssignRouteAction></RoutingAction></PrivateAction>' % (t, wp(10), wp(20))
        return osc.event("Z%d" % k, a, never)
    serial = [0]

    def setvar(vref, t):
        return '<GlobalAction><VariableAction variableRef="%s"><SetAction value=%s/></VariableAction></GlobalAction>' % (vref, q(t))

    def events(envs=None, ref=None):
        out = []
        for _ in range(rng.randint(1, 2)):
            serial[0] += 1
            if rng.random() < 0.35:
                out.append(noise(serial[0], envs))
            acts = []
            for _ in range(rng.randint(1, 3)):
                ty = rng.choice("iddbs")
                t = probe(ty, "var", None, envs)[1]
                acts.append(setvar("R%d" % (len(probes) - 1), t))
            out.append(osc.event("E%d" % serial[0], acts, ""))
        return "".join(out)
    stories = ""
    nman = 0
    for si in range(rng.randint(1, 3)):
        st = scope(rng.randint(0, 3))
        acts = ""
        for ai in range(rng.randint(1, 2)):
            groups = ""
            for gi in range(rng.randint(1, 2)):
                refs, mans = "", ""
                for _ in range(rng.choice([0, 0, 1, 1, 2])):
                    t, at = entry(rng.randint(1, 3))
                    mancat += '<Maneuver name="m%d">%s%s</Maneuver>' % (nman, t, events(env[-1]))
                    close()
                    refs += '<CatalogReference catalogName="MC" entryName="m%d">%s</CatalogReference>' % (nman, at)
                    nman += 1
                for _ in range(rng.randint(0 if refs else 1, 2)):
                    t = scope(rng.randint(0, 3))
                    mans += '<Maneuver name="n%d">%s%s</Maneuver>' % (nman, t, events())
                    nman += 1
                    close()
                groups += '<ManeuverGroup name="G%d_%d_%d" maximumExecutionCount="1"><Actors selectTriggeringEntities="false"><EntityRef entityRef="V0"/></Actors>%s%s</ManeuverGroup>' % (si, ai, gi, refs, mans)
            e = clamp(g.expr("d", flat()), 0, 1)
            t = probe("d", "act", e, act="A%d_%d" % (si, ai))[1]
            acts += osc.act("A%d_%d" % (si, ai), [groups], osc.trigger(osc.cond('<SimulationTimeCondition value=%s rule="greaterThan"/>' % q(t), "C")))
        stories += '<Story name="S%d">%s%s</Story>' % (si, st, acts)
        close()
    # the storyboard's own stop trigger sees the global parameters only; the end of the run is not observed, the value is far away
    variables = "".join('<VariableDeclaration name="R%d" variableType="%s" value="%s"/>' % (k, TYN[p["ty"]], var_text(p["ty"], p["v"])) for k, p in enumerate(probes) if p["kind"] == "var" and 'name="R%d"' % k not in extra)
    files = {"VC.xosc": cat(vehcat, "VC"), "MC.xosc": cat(mancat, "MC")}
    xosc = osc.scenario(ents, init, "", params=gt.replace("<ParameterDeclarations>", "").replace("</ParameterDeclarations>", ""), variables=extra + variables,
                        catalogs='<VehicleCatalog><Directory path="."/></VehicleCatalog><ManeuverCatalog><Directory path="."/></ManeuverCatalog>').replace('<Story name="S"></Story>', stories)
    assert stories in xosc
    files["s.xosc"] = xosc
    return dict(sc=dict(), ops=ops, probes=probes, api=api, files=files)


def cat(x, name):
    return '<?xml version="1.0"?><OpenSCENARIO><FileHeader revMajor="1" revMinor="2" date="2024-01-01T00:00:00" description="" author=""/><Catalog name="%s">%s</Catalog></OpenSCENARIO>' % (name, x)


def units(x):
    u = x * U
    return int(round(u)) if math.isfinite(u) and abs(u) < 9e7 and abs(u - round(u)) < 1e-3 else BAD


def job(case, emit):
    L = esm.load()
    T = {"i": "Int", "d": "Double", "s": "String", "b": "Bool"}

    def get(store, n, ty):
        buf = {"i": C.c_int(BAD), "d": C.c_double(BAD), "s": C.c_char_p(b"?"), "b": C.c_bool(False)}[ty]
        if getattr(L, "SE_Get%s%s" % (store, T[ty]))(n, C.byref(buf)) != 0:
            return [BAD]
        return [len(buf.value)] + list(buf.value) if ty == "s" else [int(buf.value) * U] if ty in "ib" else [units(buf.value)]

    def early():
        for a in case["api"]:
            v = "".join(map(chr, a["v"])) if a["ty"] == "s" else a["v"] // U if a["ty"] == "i" else bool(a["v"]) if a["ty"] == "b" else a["v"] / U
            getattr(L, "SE_SetParameter" + T[a["ty"]])(("$" if a["dollar"] else "") + a["n"], v)
    cb = C.CFUNCTYPE(None)(early)
    L.SE_SetOptionPersistent("disable_stdout")
    L.vf_register_early(cb)
    for f, t in case["files"].items():
        open(f, "w").write(t)
    if L.SE_Init("s.xosc", 0, 0, 0, 0) != 0:
        emit([BAD])
        return
    glob = [x for p in case["ops"][[o["o"] for o in case["ops"]].index("global")]["show"] for x in get("Parameter", p["n"], p["ty"])]
    ids = {}
    for p in case["probes"]:
        if "ent" in p:
            ids[p["ent"]] = L.SE_GetIdByName("V%d" % p["ent"])
    st = {e: L.vf_obj(i) for e, i in ids.items()}
    prop = {e: (L.SE_GetObjectPropertyValue(i, "p") or "") for e, i in ids.items()}
    started = {}

    def drain():
        for e in L.vf_drain():
            if e[0] == "e" and e[3] == 2 and e[4].startswith("A"):
                started.setdefault(e[4], L.SE_GetSimulationTime())
    drain()
    for _ in range(80):
        L.SE_StepDT(1.0 / U)
        drain()
    res = []
    for k, p in enumerate(case["probes"]):
        if p["kind"] == "var":
            res.append(get("Variable", "R%d" % k, p["ty"]))
        elif p["kind"] == "act":
            res.append([units(started[p["act"]]) - 2 if p["act"] in started else BAD])
        elif p["kind"] == "prop":
            s = prop[p["ent"]]
            res.append([len(s)] + [ord(c) for c in s])
        else:
            res.append([units(st[p["ent"]][{"length": "l", "width": "w", "height": "hgt"}.get(p["kind"], p["kind"])])])
    by = {p["op"]: r for p, r in zip(case["probes"], res)}
    for n, op in enumerate(case["ops"]):
        emit(by[n] if op["o"] == "probe" else glob if op["o"] == "global" else [])
    L.SE_Close()


def run(wd):
    def f(cases):
        res = esm.run(job, cases, wd)
        return [(rc, dict(sc=c["sc"], ops=[{k: v for k, v in o.items()} for o in c["ops"]], obs=lines)) for c, (rc, lines) in zip(cases, res)]
    return f


def check(prop, tier):
    chk_ = vf.Check(prop, tier)
    quick = tier == "quick"
    vf.build()
    with vf.Scratch() as wd:
        vf.model(chk_, "ParamsMC", INV, wd, "CONSTANT Depth = %d" % (5 if quick else 6), timeout=3000)
        rng = random.Random("%s-%d" % (prop, vf.seed()))
        for b in range(1 if quick else 12):
            cases = [gen(rng) for _ in range(500)]
            runs, bad = vf.conform(chk_, "ParamsTrace", cases, run(wd), wd, "parameters and expressions", describe=lambda c: dict(files=c["files"], api=c["api"]))
            chk_.sample(dict(operations=cases[0]["ops"][:4], results=runs[0][1]["obs"][:4]))
            if bad:
                break
    chk_.assum = ["numbers are multiples of 1/64 below 400, so that arithmetic and the six decimals in which expression values are kept are exact",
                  "catalog entries refer to their own parameters only"]
    return chk_.finish()
