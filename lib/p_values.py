"""P09: the typed parameter and variable stores (Values.tla)."""
import random, ctypes as C
import vf, esm, sbgen
from xml.sax.saxutils import quoteattr as q

UNIT = 1024
BIG = 2 ** 27 + 1
POOL = ["", "0", "1", "A", "Apple", "a", "a b", "ab", "b", "true", "yes"]       # in lexicographic order (rank = index)
assert POOL == sorted(POOL)
TYN = {"i": "integer", "d": "double", "s": "string", "b": "boolean"}
T = {"i": "Int", "d": "Double", "s": "String", "b": "Bool"}
RULES = sbgen.RULES


def text(ty, x):
    return str(x) if ty == "i" else repr(x / UNIT) if ty == "d" else POOL[x] if ty == "s" else "true" if x else "false"


def gen(rng):
    n = rng.randint(4, 8)
    decl = []
    big = rng.random() < 0.3                # also numbers that single precision cannot tell apart (and then no products)
    rnd = {"i": lambda: rng.choice([0, 1, -1, 2, 3, 7, -5, 40] + big * [BIG, BIG + 1, BIG - 1, -BIG] * 3), "d": lambda: rng.choice([0, 1, -1, 2, 3, 5, -7, 10, 31]) * (UNIT // 4) if not big or rng.random() < 0.3 else rng.choice([BIG, BIG + 1, BIG - 1, -BIG]), "s": lambda: rng.randrange(1, len(POOL)), "b": lambda: rng.randint(0, 1)}
    for i in range(n):
        k = rng.choice("pv")
        ty = rng.choice("iidds" "b")
        refs = [j + 1 for j, d in enumerate(decl) if d["k"] == "p" and d["ty"] == ty]
        decl.append(dict(k=k, ty=ty, val=rnd[ty](), ref=rng.choice(refs) if refs and rng.random() < 0.4 else 0))
    # parameters are read before variables, so a variable can refer to any parameter; keep the specification's order: parameters first
    order = sorted(range(n), key=lambda i: decl[i]["k"] != "p")
    pos = {o + 1: p + 1 for p, o in enumerate(order)}
    pos[0] = 0
    decl = [dict(decl[o], ref=pos[decl[o]["ref"]]) for o in order]
    decl.append(dict(k="v", ty="i", val=0, ref=0))
    go = len(decl)
    names = ["%s%d%s" % (d["k"], i, rng.choice(["", "_x", "Speed"])) for i, d in enumerate(decl)]
    if rng.random() < 0.5:                                  # the same name in both stores is two different things
        ps = [i for i, d in enumerate(decl) if d["k"] == "p"]
        vs = [i for i, d in enumerate(decl[:-1]) if d["k"] == "v"]
        if ps and vs:
            names[rng.choice(vs)] = names[rng.choice(ps)]

    def tgt(kinds="pv", unknown=0.07):
        if rng.random() < unknown:
            return 0, rng.choice("v")
        c = [i + 1 for i, d in enumerate(decl[:-1]) if d["k"] in kinds]
        if not c:
            return 0, "v"
        x = rng.choice(c)
        return x, decl[x - 1]["k"]
    acts, evs = [], []
    for _ in range(rng.randint(2, 5)):
        ev = []
        for _ in range(rng.randint(1, 3)):
            op = rng.choice(["set", "add", "mul"][:3 - big])
            nn, k = tgt("pv" if op == "set" else "v", 0.07 if op == "set" else 0)
            if nn == 0 and op != "set":
                continue
            ty = decl[nn - 1]["ty"] if nn else "i"
            if op == "set":
                x = rnd[ty]()
            elif op == "add":
                x = rng.choice([1, -1, 2, 5, -3, 6]) * (UNIT // 4) if rng.random() < 0.5 else rng.choice([1, -2, 3]) * UNIT
            else:
                x = rng.choice([0, 2, -1, 1, 3]) * UNIT if rng.random() < 0.5 else rng.choice([UNIT // 2, -UNIT // 2, 3 * UNIT // 2])
            if op == "mul" and ty == "d" and x == 3 * UNIT // 2:
                x = 2 * UNIT
            acts.append(dict(k=k, op=op, n=nn, x=x))
            ev.append(len(acts))
        if ev:
            evs.append(ev)
    conds = []
    for _ in range(rng.randint(4, 9)):
        nn, k = tgt()
        ty = decl[nn - 1]["ty"] if nn else "i"
        conds.append(dict(k=k, n=nn, rule=rng.choice(list(RULES)), x=rnd[ty]()))
    # operations
    def access(o):
        nn, k = tgt(unknown=0.12)
        if nn and rng.random() < 0.1:
            k = "p" if k == "v" else "v"
        ty = decl[nn - 1]["ty"] if nn else rng.choice("idsb")
        if rng.random() < 0.25:
            ty = rng.choice("idsb")
        if k != (decl[nn - 1]["k"] if nn else k) and names.count(names[nn - 1]) > 1:
            k = decl[nn - 1]["k"]
        return dict(o=o, k=k, n=nn, ty=ty, x=rnd[ty]() if o != "get" else 0, dollar=rng.random() < 0.3, untyped=rng.random() < 0.25)
    ops = [dict(o="init", w=[access("set") for _ in range(rng.choice([0, 0, 1, 2, 4]))])]
    muls = 0
    for _ in range(rng.randint(8, 16)):
        r = rng.random()
        if r < 0.3:
            ops.append(access("set"))
        elif r < 0.45:
            ops.append(access("get"))
        else:
            g = rng.randint(0, len(evs))
            if g and any(acts[a - 1]["op"] == "mul" for a in evs[g - 1]):
                muls += len(evs[g - 1])
                if muls > 5:
                    g = 0
            ops.append(dict(o="step", g=g))
    for o in ops[1:] + ops[0]["w"]:
        if o.get("untyped"):            # untyped access uses the declared type, which the caller has to know; strings are left out (see DESIGN.md)
            if o["n"] == 0 or decl[o["n"] - 1]["k"] != o["k"]:
                pass
            elif decl[o["n"] - 1]["ty"] == "s":
                o["untyped"] = False
            else:
                o["ty"] = decl[o["n"] - 1]["ty"]
                if o["o"] == "set":
                    o["x"] = rnd[o["ty"]]()
    return dict(sc=dict(decl=decl, acts=acts, evs=evs, conds=conds, go=go), names=names, ops=ops)


def xml(case):
    sc, names = case["sc"], case["names"]
    nm = lambda n: names[n - 1] if n else "nosuchname"
    ty = lambda n: sc["decl"][n - 1]["ty"] if n else "i"
    s = '<?xml version="1.0"?><OpenSCENARIO><FileHeader revMajor="1" revMinor="2" date="2024-01-01T00:00:00" description="" author=""/>'
    for k, tag in (("p", "Parameter"), ("v", "Variable")):
        s += "<%sDeclarations>" % tag
        for i, d in enumerate(sc["decl"]):
            if d["k"] == k:
                s += '<%sDeclaration name=%s %sType="%s" value=%s/>' % (tag, q(names[i]), tag.lower(), TYN[d["ty"]], q("$" + names[d["ref"] - 1] if d["ref"] else text(d["ty"], d["val"])))
        s += "</%sDeclarations>" % tag
    s += '<CatalogLocations/><RoadNetwork><LogicFile filepath="%s/harness/straight.xodr"/></RoadNetwork><Entities><ScenarioObject name="V1">%s</ScenarioObject></Entities>' % (vf.VERIF, sbgen.vehicle("car"))
    s += '<Storyboard><Init><Actions/></Init><Story name="S">'
    s += '<Act name="AC"><ManeuverGroup name="GC" maximumExecutionCount="1"><Actors selectTriggeringEntities="false"><EntityRef entityRef="V1"/></Actors><Maneuver name="MC">'
    user = '<Action name="X"><GlobalAction><VariableAction variableRef="nosuchname2"><SetAction value="0"/></VariableAction></GlobalAction></Action>'
    for i, c in enumerate(sc["conds"]):
        tag = "Parameter" if c["k"] == "p" else "Variable"
        s += ('<Event name="C%d" priority="parallel" maximumExecutionCount="1000">%s<StartTrigger><ConditionGroup><Condition name="K%d" delay="0" conditionEdge="none"><ByValueCondition>'
              '<%sCondition %sRef=%s value=%s rule="%s"/></ByValueCondition></Condition></ConditionGroup></StartTrigger></Event>') % (
            i, user, i, tag, tag.lower(), q(nm(c["n"])), q(text(ty(c["n"]), c["x"])), RULES[c["rule"]])
    s += '</Maneuver></ManeuverGroup></Act><Act name="AA"><ManeuverGroup name="GA" maximumExecutionCount="1"><Actors selectTriggeringEntities="false"><EntityRef entityRef="V1"/></Actors><Maneuver name="MA">'
    for i, ev in enumerate(sc["evs"]):
        s += '<Event name="E%d" priority="parallel" maximumExecutionCount="1000">' % i
        for j in ev:
            a = sc["acts"][j - 1]
            tag = "Parameter" if a["k"] == "p" else "Variable"
            if a["op"] == "set":
                b = "<SetAction value=%s/>" % q(text(ty(a["n"]), a["x"]))
            else:
                b = '<ModifyAction><Rule><%s value="%r"/></Rule></ModifyAction>' % ("AddValue" if a["op"] == "add" else "MultiplyByValue", a["x"] / UNIT)
            s += '<Action name="A%d"><GlobalAction><%sAction %sRef=%s>%s</%sAction></GlobalAction></Action>' % (j, tag, tag.lower(), q(nm(a["n"])), b, tag)
        s += ('<StartTrigger><ConditionGroup><Condition name="G%d" delay="0" conditionEdge="none"><ByValueCondition><VariableCondition variableRef=%s value="%d" rule="equalTo"/></ByValueCondition>'
              '</Condition></ConditionGroup></StartTrigger></Event>') % (i, q(names[sc["go"] - 1]), i + 1)
    return s + "</Maneuver></ManeuverGroup></Act></Story></Storyboard></OpenSCENARIO>"


BAD = -999999


def job(case, emit):
    L = esm.load()
    sc, names = case["sc"], case["names"]

    def num(ty, v):
        if ty == "d":
            u = v * UNIT
            return int(u) if u == int(u) and abs(u) < 2 ** 30 else BAD
        if ty == "s":
            v = v.decode()
            return POOL.index(v) if v in POOL else BAD
        return int(v)

    def name(op):
        n = names[op["n"] - 1] if op["n"] else "nosuchname"
        return ("$" if op.get("dollar") else "") + n

    def get(k, ty, n, untyped=False):
        buf = {"i": C.c_int(BAD), "d": C.c_double(BAD), "s": C.c_char_p(b"?"), "b": C.c_bool(False)}[ty]
        if untyped:
            rc = (L.vf_get_param if k == "p" else L.vf_get_var)(n, C.byref(buf))
        else:
            rc = getattr(L, "SE_Get%s%s" % ("Parameter" if k == "p" else "Variable", T[ty]))(n, C.byref(buf))
        return rc, num(ty, buf.value) if rc == 0 else 0

    def put(k, ty, n, x, untyped=False):
        v = {"i": lambda: int(x), "d": lambda: x / UNIT, "s": lambda: POOL[x], "b": lambda: bool(x)}[ty]()
        if untyped:
            buf = {"i": C.c_int, "d": C.c_double, "b": C.c_bool}.get(ty, C.c_double)(v if ty != "s" else 0.0)
            return (L.vf_set_param if k == "p" else L.vf_set_var)(n, C.byref(buf))
        return getattr(L, "SE_Set%s%s" % ("Parameter" if k == "p" else "Variable", T[ty]))(n, v)

    def show():
        out = []
        for i, d in enumerate(sc["decl"]):
            rc, v = get(d["k"], d["ty"], names[i])
            out.append(v if rc == 0 else BAD)
        return out
    rcs = []

    def early():
        for w in case["ops"][0]["w"]:
            rcs.append(put(w["k"], w["ty"], name(w), w["x"], w["untyped"]))
    cb = C.CFUNCTYPE(None)(early)
    L.SE_SetOptionPersistent("disable_stdout")
    L.vf_register_early(cb)
    open("s.xosc", "w").write(xml(case))
    if L.SE_Init("s.xosc", 0, 0, 0, 0) != 0:
        emit([BAD])
        return

    def conds():
        on = {e[1] for e in L.vf_drain() if e[0] == "c"}
        return [int("K%d" % i in on) for i in range(len(sc["conds"]))]
    c = conds()
    emit([0] + rcs + c + show())
    for op in case["ops"][1:]:
        if op["o"] == "set":
            rc = put(op["k"], op["ty"], name(op), op["x"], op["untyped"])
            emit([rc] + show())
        elif op["o"] == "get":
            rc, v = get(op["k"], op["ty"], name(op), op["untyped"])
            emit([rc, v] + show())
        else:
            L.SE_SetVariableInt(names[sc["go"] - 1], op["g"])
            L.SE_StepDT(0.1)
            c = conds()
            emit([0] + c + show())
    L.SE_Close()


def run(wd):
    def f(cases):
        res = esm.run(job, cases, wd)
        return [(rc, dict(sc=c["sc"], ops=c["ops"], obs=lines)) for c, (rc, lines) in zip(cases, res)]
    return f


def check(prop, tier):
    chk = vf.Check(prop, tier)
    quick = tier == "quick"
    vf.build()
    with vf.Scratch() as wd:
        vf.model(chk, "ValuesMC", ["TypeOK", "SetOnly", "GetPure", "StepOnly", "CondSound", "RefOk"], wd, "CONSTANT Depth = %d" % (2 if quick else 3), timeout=3000)
        rng = random.Random("%s-%d" % (prop, vf.seed()))
        for b in range(1 if quick else 10):
            cases = [gen(rng) for _ in range(600)]
            runs, bad = vf.conform(chk, "ValuesTrace", cases, run(wd), wd, "parameter and variable values", describe=lambda c: dict(case=c, xosc=xml(c)))
            chk.sample(dict(declarations=cases[0]["sc"]["decl"], operations=cases[0]["ops"][:4], results=runs[0][1]["obs"][:4]))
            if bad:
                break
    chk.assum = ["doubles are multiples of 1/1024 so that arithmetic is exact", "untyped access (SE_SetParameter etc.) is exercised for integer, double and boolean entries"]
    return chk.finish()
