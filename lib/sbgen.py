"""Random storyboards: one description that is written both as OpenSCENARIO XML (for esmini) and as data for Storyboard.tla."""
import os, json
from xml.sax.saxutils import quoteattr as q

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
UNIT = 16  # time units per second
TY = {1: "", 2: "story", 3: "act", 4: "maneuverGroup", 5: "maneuver", 6: "event", 7: "action"}
RULES = {"gt": "greaterThan", "ge": "greaterOrEqual", "lt": "lessThan", "le": "lessOrEqual", "eq": "equalTo", "ne": "notEqualTo"}
EDGE = {"none": "none", "rising": "rising", "falling": "falling", "both": "risingOrFalling"}
PRIO = {"o": "override", "s": "skip", "p": "parallel"}


class SB:
    def __init__(self, nvars=3, nobj=2, var0=None):
        self.el, self.cond, self.trig, self.init = [], [], [], []
        self.names, self.paths = [], []
        self.var0 = list(var0) if var0 else [0] * nvars
        self.nobj = nobj
        self.lab = {}
        self.add(1, 0, "")

    def add(self, ty, par, name, **kw):
        e = dict(ty=ty, par=par, ch=[], max=1, prio="p", st=0, sp=0, ak="", obj=1, dom=0, dur=0, v=1, x=0)
        e.update(kw)
        i = len(self.el) + 1
        if ty == 1:
            path = ""
        elif par == 0:
            path = name
        else:
            pp = self.paths[par - 1]
            path = pp + "::" + name if pp else name
        self.names.append(name)
        self.paths.append(path)
        e["lab"] = self.lab.setdefault((ty, path), i)
        self.el.append(e)
        if par and ty != 1:
            self.el[par - 1]["ch"].append(i)
        return i

    def addcond(self, **kw):
        c = dict(k="var", edge="none", delay=0, v=1, rule="eq", val=1, e=0, ts="")
        c.update(kw)
        self.cond.append(c)
        return len(self.cond)

    def addtrig(self, groups, default=True):
        self.trig.append({"def": default, "g": groups})
        return len(self.trig)

    # ---- TLA+ side
    def sc(self):
        acts = [i + 1 for i, e in enumerate(self.el) if e["ty"] == 7 and e["par"] and e["ak"] in ("timed", "inst", "lat")]
        return dict(el=self.el, cond=self.cond, trig=self.trig, init=self.init, acts=acts, var0=self.var0, nobj=self.nobj)

    # ---- OpenSCENARIO side
    def xtrig(self, tag, t):
        if t == 0:
            return ""
        s = "<%s>" % tag
        for g in self.trig[t - 1]["g"]:
            s += "<ConditionGroup>"
            for c in g:
                d = self.cond[c - 1]
                s += '<Condition name="C%d" delay="%r" conditionEdge="%s"><ByValueCondition>' % (c, d["delay"] / UNIT, EDGE[d["edge"]])
                if d["k"] == "var":
                    s += '<VariableCondition variableRef="v%d" value="%d" rule="%s"/>' % (d["v"], d["val"], RULES[d["rule"]])
                elif d["k"] == "time":
                    s += '<SimulationTimeCondition value="%r" rule="%s"/>' % (d["val"] / UNIT, RULES[d["rule"]])
                else:
                    e = self.el[d["e"] - 1]
                    name = self.paths[d["e"] - 1] if d.get("full") else self.names[d["e"] - 1]
                    s += '<StoryboardElementStateCondition storyboardElementType="%s" storyboardElementRef=%s state="%s"/>' % (TY[e["ty"]], q(name), d["ts"])
                s += "</ByValueCondition></Condition>"
            s += "</ConditionGroup>"
        return s + "</%s>" % tag

    def xprivate(self, e):
        if e["ak"] == "timed":
            return ('<PrivateAction><LongitudinalAction><SpeedAction><SpeedActionDynamics dynamicsShape="linear" value="%r" dynamicsDimension="time"/>'
                    '<SpeedActionTarget><AbsoluteTargetSpeed value="%r"/></SpeedActionTarget></SpeedAction></LongitudinalAction></PrivateAction>' % (e["dur"] / UNIT, float(e["x"])))
        if e["ak"] == "lat":
            return ('<PrivateAction><LateralAction><LaneChangeAction targetLaneOffset="%r"><LaneChangeActionDynamics dynamicsShape="linear" value="%r" dynamicsDimension="time"/>'
                    '<LaneChangeTarget><AbsoluteTargetLane value="-1"/></LaneChangeTarget></LaneChangeAction></LateralAction></PrivateAction>' % (e["x"] / 1048576.0, e["dur"] / UNIT))
        if e["ak"] == "inst":
            return '<PrivateAction><TeleportAction><Position><LanePosition roadId="1" laneId="-1" offset="0" s="%r"/></Position></TeleportAction></PrivateAction>' % float(e["x"])
        raise KeyError(e["ak"])

    def xaction(self, e):
        k = e["ak"]
        if k == "set":
            return '<GlobalAction><VariableAction variableRef="v%d"><SetAction value="%d"/></VariableAction></GlobalAction>' % (e["v"], e["x"])
        if k == "add":
            return '<GlobalAction><VariableAction variableRef="v%d"><ModifyAction><Rule><AddValue value="%d"/></Rule></ModifyAction></VariableAction></GlobalAction>' % (e["v"], e["x"])
        if k == "mul":
            return '<GlobalAction><VariableAction variableRef="v%d"><ModifyAction><Rule><MultiplyByValue value="%d"/></Rule></ModifyAction></VariableAction></GlobalAction>' % (e["v"], e["x"])
        if k == "user":
            return '<UserDefinedAction><CustomCommandAction type="nop">x</CustomCommandAction></UserDefinedAction>'
        return self.xprivate(e)

    def xml(self):
        s = ('<?xml version="1.0" encoding="UTF-8"?><OpenSCENARIO><FileHeader revMajor="1" revMinor="2" date="2024-01-01T00:00:00" description="" author=""/>'
             '<ParameterDeclarations/><VariableDeclarations>')
        for i, v in enumerate(self.var0):
            s += '<VariableDeclaration name="v%d" variableType="integer" value="%d"/>' % (i + 1, v)
        s += '</VariableDeclarations><CatalogLocations/><RoadNetwork><LogicFile filepath="%s/harness/straight.xodr"/></RoadNetwork><Entities>' % VERIF
        for o in range(1, self.nobj + 1):
            s += '<ScenarioObject name="V%d">%s</ScenarioObject>' % (o, vehicle("car%d" % o))
        s += "</Entities><Storyboard><Init><Actions>"
        for o in range(1, self.nobj + 1):
            s += '<Private entityRef="V%d">' % o
            for i in self.init:
                if self.el[i - 1]["obj"] == o:
                    s += self.xprivate(self.el[i - 1])
            s += "</Private>"
        s += "</Actions></Init>"
        for st in self.el[0]["ch"]:
            s += "<Story name=%s>" % q(self.names[st - 1])
            for a in self.el[st - 1]["ch"]:
                A = self.el[a - 1]
                s += "<Act name=%s>" % q(self.names[a - 1])
                for g in A["ch"]:
                    G = self.el[g - 1]
                    s += "<ManeuverGroup name=%s maximumExecutionCount=\"%d\"><Actors selectTriggeringEntities=\"false\">" % (q(self.names[g - 1]), G["max"])
                    for o in G["actors"]:
                        s += '<EntityRef entityRef="V%d"/>' % o
                    s += "</Actors>"
                    for m in G["ch"]:
                        s += "<Maneuver name=%s>" % q(self.names[m - 1])
                        for ev in self.el[m - 1]["ch"]:
                            E = self.el[ev - 1]
                            s += "<Event name=%s priority=\"%s\" maximumExecutionCount=\"%d\">" % (q(self.names[ev - 1]), PRIO[E["prio"]], E["max"])
                            done = set()
                            for ac in E["ch"]:
                                if self.names[ac - 1] in done:
                                    continue
                                done.add(self.names[ac - 1])
                                s += "<Action name=%s>%s</Action>" % (q(self.names[ac - 1]), self.xaction(self.el[ac - 1]))
                            if not E.get("nostart"):
                                s += self.xtrig("StartTrigger", E["st"])
                            s += "</Event>"
                        s += "</Maneuver>"
                    s += "</ManeuverGroup>"
                s += self.xtrig("StartTrigger", A["st"]) + self.xtrig("StopTrigger", A["sp"])
                s += "</Act>"
            s += "</Story>"
        s += self.xtrig("StopTrigger", self.el[0]["sp"])
        return s + "</Storyboard></OpenSCENARIO>"


def vehicle(name, length=5.0, width=2.0, extra=""):
    return ('<Vehicle name="%s" vehicleCategory="car"><ParameterDeclarations/><BoundingBox><Center x="1.5" y="0.0" z="0.75"/><Dimensions width="%r" length="%r" height="1.5"/></BoundingBox>'
            '<Performance maxSpeed="10000" maxAcceleration="100000" maxDeceleration="100000"/><Axles><FrontAxle maxSteering="0.5" wheelDiameter="0.6" trackWidth="1.8" positionX="3.1" positionZ="0.3"/>'
            '<RearAxle maxSteering="0.0" wheelDiameter="0.6" trackWidth="1.8" positionX="0.0" positionZ="0.3"/></Axles><Properties/>%s</Vehicle>' % (name, width, length, extra))


STATES = ["standbyState", "runningState", "completeState", "startTransition", "endTransition", "stopTransition"]


def gen(rng, **o):
    """o: profile.  Returns (SB, steps) with steps = [(dt units, {var: value})]."""
    P = dict(stories=(1, 1), acts=(1, 2), groups=(1, 2), mans=(1, 2), events=(1, 3), actions=(1, 2), nvars=3, prio="osp", emax=[1, 1, 2, 3], gmax=[1, 1, 2],
             kinds=["set", "add", "user", "timed"], pstate=0.2, ptime=0.15, pvar=None, pedge=0.4, pdelay=0.2, groups_t=(1, 2), conds=(1, 2), pstop=0.2, pboardstop=0.15,
             pacttrig=0.6, pnoevtrig=0.15, pempty=0.05, steps=(8, 16), initkinds=True, multi=0.3, dts=[2, 2, 2, 2, 4, 1], emptygroup=0.03, pset=0.5, distinct_targets=True)
    P.update(o)
    sb = SB(nvars=P["nvars"], var0=[rng.randint(0, 1) for _ in range(P["nvars"])])
    # lateral targets (metres * 2^20): arbitrary, so that an interrupted move is never by accident at another one's target
    pool = [rng.randint(1 << 18, 1 << 20) for _ in range(3)]
    ri = lambda r: rng.randint(r[0], r[1])
    # init actions
    for ob in (1, 2):
        sb.init.append(sb.add(7, 0, "Init V%d TeleportAction" % ob, ak="inst", obj=ob, dom=3, x=50 * ob))
        # a lateral action progresses only at speed, so scenarios with one start at 20 m/s
        if P["initkinds"] and rng.random() < 0.5 and "lat" not in P["kinds"]:
            sb.init.append(sb.add(7, 0, "Init V%d LongitudinalAction" % ob, ak="timed", obj=ob, dom=1, dur=rng.choice([0, 4, 12, 40, 80]), x=20))
        else:
            sb.init.append(sb.add(7, 0, "Init V%d LongitudinalAction" % ob, ak="timed", obj=ob, dom=1, dur=0, x=20))
        if P["initkinds"] and rng.random() < 0.3 and "lat" in P["kinds"]:
            sb.init.append(sb.add(7, 0, "Init V%d LateralAction" % ob, ak="lat", obj=ob, dom=2, dur=rng.choice([8, 24, 64]), x=rng.choice(pool)))
    pend = []
    names = {2: 0, 3: 0, 4: 0, 5: 0, 6: 0, 7: 0}

    def nm(ty):
        names[ty] += 1
        return {2: "S", 3: "A", 4: "G", 5: "M", 6: "E", 7: "X"}[ty] + str(names[ty])
    for _ in range(ri(P["stories"])):
        s = sb.add(2, 1, nm(2))
        for _ in range(ri(P["acts"])):
            a = sb.add(3, s, nm(3))
            if rng.random() < P["pacttrig"]:
                pend.append((a, "st", True))
            if rng.random() < P["pstop"]:
                pend.append((a, "sp", False))
            for _ in range(ri(P["groups"])):
                actors = [1, 2] if rng.random() < P["multi"] else [rng.randint(1, 2)]
                g = sb.add(4, a, nm(4), max=rng.choice(P["gmax"]), actors=actors)
                for _ in range(ri(P["mans"])):
                    m = sb.add(5, g, nm(5))
                    for _ in range(ri(P["events"])):
                        e = sb.add(6, m, nm(6), max=rng.choice(P["emax"]), prio=rng.choice(P["prio"]))
                        if rng.random() < P["pnoevtrig"]:
                            sb.el[e - 1]["st"] = sb.addtrig([], True)
                            sb.el[e - 1]["nostart"] = rng.random() < 0.5
                        else:
                            pend.append((e, "st", True))
                        if rng.random() < P["pempty"]:
                            continue
                        for _ in range(ri(P["actions"])):
                            k = rng.choice(P["kinds"])
                            n = nm(7)
                            if k in ("timed", "lat", "inst"):
                                dur = rng.choice([0, 2, 3, 4, 6, 8, 12, 20]) if k == "timed" else rng.choice([4, 6, 8, 12, 20])
                                x = rng.choice([10, 20, 30]) if k == "timed" else (100 if k == "inst" else rng.choice(pool))
                                for ob in actors:
                                    sb.add(7, e, n, ak=k, obj=ob, dom={"timed": 1, "lat": 2, "inst": 3}[k], dur=dur, x=x)
                            else:
                                sb.add(7, e, n, ak=k, v=rng.randint(1, P["nvars"]), x=rng.randint(0, 2) if k != "mul" else rng.randint(0, 2))
    if rng.random() < P["pboardstop"]:
        pend.append((1, "sp", False))
    # triggers
    elems = [i + 1 for i, e in enumerate(sb.el) if e["ty"] >= 2 and e["par"]]
    for e, which, default in pend:
        if rng.random() < P["emptygroup"]:
            groups = [[]]
        else:
            groups = []
            for _ in range(ri(P["groups_t"])):
                grp = []
                for _ in range(ri(P["conds"])):
                    r = rng.random()
                    kw = {}
                    if r < P["pstate"]:
                        t = rng.choice(elems)
                        kw = dict(k="state", e=first_instance(sb, t), ts=rng.choice(STATES), full=rng.random() < 0.3)
                    elif r < P["pstate"] + P["ptime"]:
                        kw = dict(k="time", rule=rng.choice(["gt", "ge", "ge", "lt", "le", "eq", "ne"]), val=rng.randint(0, 24))
                    else:
                        kw = dict(k="var", v=rng.randint(1, P["nvars"]), rule=rng.choice(["eq", "eq", "eq", "gt", "ne", "le", "lt", "ge"]), val=rng.randint(0, 2))
                    if rng.random() < P["pedge"]:
                        kw["edge"] = rng.choice(["rising", "falling", "both", "rising"])
                    if rng.random() < P["pdelay"]:
                        kw["delay"] = rng.choice([1, 2, 3, 4, 6, 8])
                    grp.append(sb.addcond(**kw))
                groups.append(grp)
        sb.el[e - 1][which] = sb.addtrig(groups, default)
    steps = []
    for _ in range(ri(P["steps"])):
        ch = {}
        for v in range(1, P["nvars"] + 1):
            if rng.random() < P["pset"] / P["nvars"] * 1.5:
                ch[v] = rng.randint(0, 2)
        steps.append((rng.choice(P["dts"]), ch))
    return sb, steps


def first_instance(sb, t):
    lab = sb.el[t - 1]["lab"]
    for i, e in enumerate(sb.el):
        if e["lab"] == lab and e["ty"] == sb.el[t - 1]["ty"]:
            return i + 1
    return t


def to_units(t):
    u = t * UNIT
    r = round(u)
    return int(r) if abs(u - r) < 1e-6 else -999999


def observed(sb, lines):
    """Driver output -> the trace in the vocabulary of the specification."""
    ids = {}
    for (ty, path), lab in sb.lab.items():
        ids[(ty, path)] = lab
    out = []
    for f in lines:
        log = []
        for x in f.get("log", []):
            if x[0] == "e":
                log.append(["e", ids.get((x[2], x[1]), -1), x[3]])
            else:
                n = x[1]
                log.append(["c", int(n[1:]) if n[:1] == "C" and n[1:].isdigit() else -1, to_units(x[2])])
        vs = f.get("vars", {})
        out.append(dict(log=log, vars=[vs.get("v%d" % (i + 1), -999999) for i in range(len(sb.var0))], t=to_units(f.get("t", -1)), quit=f.get("quit", -9), ret=f.get("ret", -9)))
    return out
