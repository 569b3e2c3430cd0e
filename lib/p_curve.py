"""P10: positions on roads that bend, rise and bank (Curve.tla)."""
import random, math
import vf, esm
from roadnet import U

BAD, ONE = -99999999, 32768
INV = ["Unit", "SamePlace", "Straight", "Circle", "NoShortcut", "Square"]


def u(x, m=U):
    return BAD if not isinstance(x, (int, float)) or x != x or abs(x) * m > 9e7 else round(x * m)


def walk(geo, n=None):
    """fine integration of a geometry: [(s, x, y, h)] relative to its start"""
    L, h, x, y, out = geo["len"] / U, geo["h"], geo["x"] / U, geo["y"] / U, []
    N = n or max(8, int(L * 4))
    if geo["k"] == "arc":
        k0, k1 = geo["k0"] / 2**20, geo["k1"] / 2**20
        st = L / N
        for i in range(N + 1):
            out.append((geo["s"] / U + i * st, x, y, h))
            for q in range(8):
                d = st / 8
                a = i * st + q * d
                k = k0 + (k1 - k0) * (a + d / 2) / L
                x, y = x + d * math.cos(h + k * d / 2), y + d * math.sin(h + k * d / 2)
                h += k * d
        return out
    c, d = geo["k0"] / 2**20, geo["k1"] / 2**26
    f, w, s = 1, 0.0, 0.0
    for i in range(N + 1):
        tgt = L * i / N
        while s < tgt - 1e-9:
            ds = min(0.02, tgt - s)
            m = w + ds / 2 / math.hypot(1, 2 * c * w + 3 * d * w * w)
            w += ds / math.hypot(1, 2 * c * m + 3 * d * m * m)
            s += ds
        v = c * w * w + d * w**3
        out.append((geo["s"] / U + tgt, x + w * math.cos(h) - v * math.sin(h), y + w * math.sin(h) + v * math.cos(h), h + math.atan(2 * c * w + 3 * d * w * w)))
    geo["umax"] = w
    return out


def prof(rng, length, a0, amp, slope, flat=0.3):
    """continuous piecewise cubic profile: values within about amp of a0"""
    out, s, a = [], 0, a0
    if rng.random() < flat:
        return [dict(s=0, a=a0, b=0, c=0, d=0)]
    while s < length:
        n = min(rng.randrange(20 * U, 90 * U), length - s)
        L = n / U
        m = rng.random()
        tgt = a0 + rng.uniform(-amp, amp)
        b = c = d = 0
        dz = max(-slope * L * 0.6, min(slope * L * 0.6, (tgt - a) / U))
        if m < 0.3:
            b = round(dz / L * 65536)
        elif m < 0.6:
            b0 = rng.uniform(-slope, slope) / 3
            b = round(b0 * 65536)
            c = round((dz - b0 * L) / L**2 * 2**24)
        else:                                  # there and level
            c = round(3 * dz / L**2 * 2**24)
            d = round(-2 * dz / L**3 * 2**34)
        q = dict(s=s, a=a, b=b, c=c, d=d)
        lim = max(abs(dif(q, n * k // 8)) for k in range(9)) / 65536
        m = n + 6 * U
        if lim > 2 * slope or max(abs(d) * m, (abs(c) + abs(d) * m / 2**20) * m, (abs(b) + (abs(c) + abs(d) * m / 2**20) * m / 2**18) * m, 3 * (abs(c) + abs(d) * m / 2**20) * m) > 1.9e9:
            continue
        out.append(q)
        a = val(q, n)
        s += n
        if length - s < 5 * U:
            break
    return out


def val(q, ds):
    return round(q["a"] + (q["b"] / 2**16 * ds / U + q["c"] / 2**24 * (ds / U)**2 + q["d"] / 2**34 * (ds / U)**3) * U)


def dif(q, ds):
    x = ds / U
    return q["b"] + (2 * q["c"] / 2**24 * x + 3 * q["d"] / 2**34 * x * x) * 65536


def at(p, s):
    q = [e for e in p if e["s"] <= s][-1]
    return val(q, s - q["s"])


def road(rng, x, y, plain):
    h, geo, s, k = rng.choice([0.0, rng.uniform(-3.1, 3.1), rng.uniform(0, 6.2)]), [], 0, 0
    pts = []
    for n in range(1 if plain else rng.randint(2, 5)):
        t = rng.random()
        L = rng.randrange(12 * U, 42 * U)
        kmax = min(0.04, 1.2 / (L / U))
        rk = lambda: round(rng.uniform(-kmax, kmax) * 2**20)
        g = dict(k="arc", s=s, len=L, x=round(x), y=round(y), h=h, c=round(math.cos(h) * ONE), n=round(math.sin(h) * ONE), k0=0, k1=0, form="line", loose=0)
        if plain and t < 0.6 or t < 0.15:
            pass
        elif t < 0.4:
            g["k0"] = g["k1"] = rk()
            g["form"] = "arc"
        elif t < 0.75:
            g.update(form="spiral", k0=rng.choice([0, rk()]), k1=rng.choice([0, rk(), rk()]))
        else:
            sl = rng.uniform(-0.4, 0.4)        # slope of either term at the end
            g.update(k="poly", form=rng.choice(["poly3", "arcLength", "normalized", "normalized"]), k0=round(sl / 2 / (L / U) * 2**20), k1=round(rng.choice([0, rng.uniform(-0.4, 0.4)]) / 3 / (L / U)**2 * 2**26))
            g["loose"] = int(g["form"] == "poly3")
        if pts and g["k"] == "arc" and abs(h + 0) > 50:
            continue
        w = walk(g)
        geo.append(g)
        pts += w[:-1]
        _, x, y, h = w[-1]
        x, y = x * U, y * U
        if rng.random() < 0.3:
            h = math.remainder(h, 2 * math.pi)
        s += L
    pts.append(w[-1])
    fl = 1.0 if plain else 0.3
    lanes = []
    for i in list(range(rng.randint(1, 2), 0, -1)) + list(range(-1, -rng.randint(1, 3) - 1, -1)):
        lanes.append(dict(id=i, w=prof(rng, s, rng.randrange(3 * U, 4 * U), 0.5 * U, 0.03, 0.5 if not plain else 1.0)))
    bank = [] if plain or rng.random() < 0.3 else prof(rng, s, 0, 0.1 * 32 * U, 0.004 * 32, 0.1)
    return dict(len=s, geo=geo, elev=prof(rng, s, rng.randrange(-5 * U, 20 * U) if not plain else 0, 6 * U, 0.06, fl), bank=bank, off=prof(rng, s, 0, U, 0.03, 0.5 if not plain else 1.0), lanes=lanes), pts


def xodr(sc):
    r8 = lambda v: repr(v)
    o = '<?xml version="1.0"?><OpenDRIVE><header revMajor="1" revMinor="5" name="" version="1" date="" north="0" south="0" east="0" west="0"/>'
    pf = lambda tag, key, p, m=1: "".join('<%s %s="%r" a="%r" b="%r" c="%r" d="%r"/>' % (tag, key, q["s"] / U, q["a"] / U / m, q["b"] / 2**16 / m, q["c"] / 2**24 / m, q["d"] / 2**34 / m) for q in p)
    for i, r in enumerate(sc["roads"]):
        o += '<road name="" length="%r" id="%d" junction="-1"><link/><planView>' % (r["len"] / U, 3 * i + 1)
        for g in r["geo"]:
            L, c, d = g["len"] / U, g["k0"] / 2**20, g["k1"] / 2**26
            f = {"line": "<line/>", "arc": '<arc curvature="%r"/>' % c, "spiral": '<spiral curvStart="%r" curvEnd="%r"/>' % (c, g["k1"] / 2**20), "poly3": '<poly3 a="0" b="0" c="%r" d="%r"/>' % (c, d)}.get(g["form"])
            if not f:
                m = g["umax"] if g["form"] == "normalized" else g["umax"] / L
                f = '<paramPoly3 pRange="%s" aU="0" bU="%r" cU="0" dU="0" aV="0" bV="0" cV="%r" dV="%r"/>' % (g["form"], m, c * m**2, d * m**3)
            o += '<geometry s="%r" x="%r" y="%r" hdg="%r" length="%r">%s</geometry>' % (g["s"] / U, g["x"] / U, g["y"] / U, g["h"], L, f)
        o += "</planView><elevationProfile>%s</elevationProfile><lateralProfile>%s</lateralProfile><lanes>%s" % (pf("elevation", "s", r["elev"]), pf("superelevation", "s", r["bank"], 32), pf("laneOffset", "s", r["off"]))
        ln = lambda l: '<lane id="%d" type="driving" level="false"><link/>%s</lane>' % (l["id"], pf("width", "sOffset", l["w"]))
        o += '<laneSection s="0"><left>%s</left><center><lane id="0" type="none" level="false"/></center><right>%s</right></laneSection></lanes></road>' % (
            "".join(ln(l) for l in r["lanes"] if l["id"] > 0), "".join(ln(l) for l in r["lanes"] if l["id"] < 0))
    return o + "</OpenDRIVE>"


def centre(r, id, s):
    a = sum(at(l["w"], s) for l in r["lanes"] if l["id"] * id > 0 and abs(l["id"]) < abs(id)) + at(next(l for l in r["lanes"] if l["id"] == id)["w"], s) / 2
    return at(r["off"], s) + (a if id > 0 else -a)


def tie(r, s, t):
    c = [(abs(t - centre(r, l["id"], s)), at(l["w"], s) / 2) for l in r["lanes"]]
    return any(abs(d - w) < 30 for d, w in c) or all(d > w for d, w in c) and sorted(c)[1][0] - sorted(c)[0][0] < 60


def gen(rng):
    roads, pts = [], []
    for n in range(2):
        r, p = road(rng, rng.randrange(-99 * U, 99 * U), n * 1500 * U + rng.randrange(-99 * U, 99 * U), n == 1)
        roads.append(r)
        pts.append(p)
    ops, refs = [], []
    for i, r in enumerate(roads):
        edge = {q["s"] for p in [r["geo"], r["elev"], r["bank"], r["off"]] + [l["w"] for l in r["lanes"]] for q in p if q["s"]}
        s = rng.randrange(10, U)
        while s < r["len"] - 10:
            e = [z for z in edge if abs(s - z) < 8]
            if e:
                s = e[0] + 9
                continue
            refs.append((i, s))
            ops.append(dict(o="ref", i=i + 1, s=s))
            g = [z for z in r["geo"] if z["s"] <= s][-1]
            nx = s + rng.randrange(400, 1900)
            s = nx
    for _ in range(40):
        j = rng.randrange(len(refs))
        i, s = refs[j]
        r = roads[i]
        if rng.random() < 0.5:
            t = rng.randrange(-8 * U, 8 * U)
            if tie(r, s, t) or abs(t) < 10:
                continue
            ops.append(dict(o="road", i=i + 1, j=j + 1, t=t))
        else:
            l = rng.choice(r["lanes"])["id"]
            off = rng.choice([0, rng.randrange(-U, U)])
            t = round(centre(r, l, s)) + off
            ops.append(dict(o="lane", i=i + 1, j=j + 1, lane=l, off=off))
            d = rng.choice([-1, 1]) * rng.randrange(U // 4, 5 * U)
            g = [z for z in r["geo"] if z["s"] <= s][-1]
            if rng.random() < 0.4 and 7 * U < s - g["s"] < g["len"] - 7 * U and g["k"] == "arc" and g["k0"] == g["k1"]:
                ops.append(dict(o="move", i=i + 1, d=d))
                continue
            if tie(r, s, t):
                continue
        if rng.random() < 0.5 and 6 * U < s < r["len"] - 6 * U:
            q = min(pts[i], key=lambda z: abs(z[0] - s / U))
            px, py = q[1] - t / U * math.sin(q[3]), q[2] + t / U * math.cos(q[3])
            if all(math.hypot(z[1] - px, z[2] - py) > abs(t) / U + min(6, abs(z[0] - s / U) * 0.3) for z in pts[i] if abs(z[0] - s / U) > 15):
                a = rng.choice([0, math.pi, rng.uniform(-0.5, 0.5)])
                ops.append(dict(o="xy", i=i + 1, a=a, c=round(math.cos(a) * ONE), n=round(math.sin(a) * ONE)) if rng.random() < 0.5 else dict(o="xyz", i=i + 1))
    return dict(sc=dict(roads=roads), ops=ops)


def job(case, emit):
    L = esm.load()
    L.RM_SetOptionPersistent("disable_stdout")
    open("r.xodr", "w").write(xodr(case["sc"]))
    if L.RM_Init("r.xodr") != 0:
        emit([BAD])
        return
    h = L.RM_CreatePosition()
    ids = [L.RM_GetRoadIdFromString(str(3 * i + 1)) for i in range(len(case["sc"]["roads"]))]
    refs, last, hd = [], None, 0.0
    fin = lambda *v: all(isinstance(x, (int, float)) and x == x and abs(x) < 1e9 for x in v)

    def where(i):
        p, d = L.vf_pos(h), L.vf_laneinfo(h, 0.0, 2, 0)
        if not fin(p["h"], p["p"], p["r"]) or p["road"] != ids[i]:
            return [BAD] * 12, p, d
        ch, sh, cp, sp = math.cos(p["h"]), math.sin(p["h"]), math.cos(p["p"]), math.sin(p["p"])
        return [u(p["s"]), p["lane"], u(p["off"]), u(p["x"]), u(p["y"]), u(p["z"]), u(ch * cp, ONE), u(sh * cp, ONE), u(-sp, ONE), u(cp * math.sin(p["r"]), ONE), u(d["tt"]), u(d["w"])], p, d
    for op in case["ops"]:
        i = op["i"] - 1
        if op["o"] == "ref":
            rc = L.RM_SetRoadPosition(h, ids[i], op["s"] / U, -1.0, True)
            d = L.vf_laneinfo(h, 0.0, 1, 0)
            refs.append(op["s"])
            emit([rc, u(d["x"]), u(d["y"]), u(d["z"]), u(math.cos(d["h"]), ONE), u(math.sin(d["h"]), ONE), u(-math.sin(d["p"]), ONE), u(d["r"], ONE), u(d["curv"], 2**20)] if fin(d["h"], d["p"]) else [BAD] * 9)
            continue
        if op["o"] == "road":
            rc = L.RM_SetRoadPosition(h, ids[i], refs[op["j"] - 1] / U, op["t"] / U, True)
        elif op["o"] == "lane":
            rc = L.RM_SetLanePosition(h, ids[i], op["lane"], op["off"] / U, refs[op["j"] - 1] / U, True)
        elif op["o"] == "move":
            rc = L.RM_PositionMoveForward(h, op["d"] / U, -1.0)
        elif op["o"] == "xy":
            rc = L.RM_SetWorldXYHPosition(h, float(last["x"]), float(last["y"]), float(hd + op["a"]))
        elif op["o"] == "xyz":
            L.RM_SetRoadPosition(h, ids[1 - i], 5.0, -2.0, True)     # from somewhere else
            rc = L.RM_SetWorldPosition(h, *[float(last[v]) for v in "xyzhpr"])
        w, p, d = where(i)
        if op["o"] == "xyz":                     # its pitch and roll were asked for; the next one starts anew
            L.RM_DeletePosition(h)
            h = L.RM_CreatePosition()
        if op["o"][:2] != "xy":
            last, hd = p, d["h"]
        emit([-1 if rc < 0 else 0] + w)
    L.RM_Close()


def run(wd):
    def f(cases):
        return [(rc, dict(sc=c["sc"], ops=c["ops"], obs=lines)) for c, (rc, lines) in zip(cases, esm.run(job, cases, wd))]
    return f
