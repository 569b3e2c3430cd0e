"""Random small road networks: chains of straight roads in the four compass directions, joined by junctions.  Lengths in 1/1024 m."""
import random
U = 1024
TYPES = {"driving": 2, "shoulder": 8, "biking": 16, "sidewalk": 32, "border": 64, "restricted": 128, "parking": 256, "entry": 131072, "exit": 262144, "onRamp": 1048576, "bidirectional": 512}
DRIV = {2, 131072, 262144, 524288, 1048576, 4194304, 512}
NAME = {v: k for k, v in TYPES.items()}


class Net:
    def __init__(self, rng, juncs=2, turns=True, slopes=True, offsets=True, elev=True, maxsec=3, left=True, names=True, minlen=40, maxlen=160, typed=True, chain=(1, 3), kinds=True, zero=0.0, loop=False, evolve=True, cross=0.0):
        self.rng, self.roads, self.juncs = rng, [], []
        self.o = dict(turns=turns, slopes=slopes, offsets=offsets, elev=elev, maxsec=maxsec, left=left, minlen=minlen, maxlen=maxlen, typed=typed, chain=chain, kinds=kinds, zero=zero, evolve=evolve, cross=cross)
        self.key = 0
        self.budget = juncs
        if loop:
            self.loop()
        else:
            R = [self.newlane() for _ in range(rng.randint(1, 3))]
            L = [self.newlane() for _ in range(rng.randint(1, 2))] if left and rng.random() < 0.8 else []
            self.grow(0, 0, 0, R, L, None)
        ids = rng.sample(range(0, 60), len(self.roads))
        self.names = ["%s%d" % (rng.choice(["", "", "", "r", "Road-"]) if names else "", i) for i in ids]
        jd = rng.sample(range(0, 60), len(self.juncs))
        self.jnames = ["%s%d" % (rng.choice(["", "", "J"]) if names else "", i) for i in jd]

    def newlane(self):
        self.key += 1
        r = self.rng.random()
        ty = 2 if r < 0.85 or not self.o["typed"] else self.rng.choice([131072, 262144, 1048576])
        return (self.key, ty)

    def edge(self):
        self.key += 1
        return (self.key, self.rng.choice([8, 16, 32, 64, 128, 256]))

    def evolve(self, lanes):
        """the same side in the next section: lanes may be added or dropped at either edge"""
        lanes = list(lanes)
        if not self.o["evolve"]:
            return lanes
        r = self.rng.random()
        if r < 0.2 and len(lanes) < 4:
            lanes.append(self.newlane())
        elif r < 0.35 and len(lanes) < 4:
            lanes.insert(0, self.newlane())
        elif r < 0.5 and sum(l[1] in DRIV for l in lanes) > 1:
            lanes.pop()
        elif r < 0.6 and sum(l[1] in DRIV for l in lanes) > 1:
            lanes.pop(0)
        if self.o["kinds"] and self.rng.random() < 0.15 and len(lanes) < 5:
            lanes.append(self.edge())
        if not any(l[1] in DRIV for l in lanes):
            return [l for l in lanes] + [self.newlane()]
        return lanes

    def width(self, n, ln):
        """piecewise linear width over a section of length ln, chain direction: [(offset, a, b/16)]"""
        r = self.rng
        if self.o["zero"] and r.random() < self.o["zero"]:
            # a lane of no width, all along or until it opens
            k = r.randrange(ln // 5, ln // 2)
            return [(0, 0, 0)] if r.random() < 0.5 or k + 16 * U >= ln else [(0, 0, 0), (k, 0, 1), (k + 16 * U, U, 0)]
        a = r.choice([2, 3, 3, 4]) * U + r.choice([0, U // 2, U // 4])
        if not self.o["slopes"] or r.random() < 0.7:
            return [(0, a, 0)]
        k, b = r.randrange(ln // 5, ln // 2), r.choice([-1, 1])
        if k + 16 * U < ln:
            return [(0, a, 0), (k, a, b), (k + 16 * U, a + b * U, 0)]
        return [(0, a, 0), (k, a, b)]

    def grow(self, x, y, q, R, L, src, n=None):
        """a chain of roads starting at (x, y) heading q; src: None or list of (road idx, contact, link role) to be linked with the chain's start.  Returns (first road index, its contact)"""
        r = self.rng
        nroads = n or r.randint(*self.o["chain"])
        first = None
        prev = None
        for k in range(nroads):
            secs = []
            nsec = r.randint(1, self.o["maxsec"])
            for m in range(nsec):
                if k or m:
                    R, L = (self.evolve(R) if m or r.random() < 0.6 else R), (self.evolve(L) if L and (m or r.random() < 0.6) else L)
                ln = r.randrange(self.o["minlen"] * U // nsec, self.o["maxlen"] * U // nsec)
                secs.append(dict(len=ln, R=list(R), L=list(L), w={l[0]: self.width(l, ln) for l in R + L}))
            idx = len(self.roads)
            rev = r.random() < 0.4
            road = dict(rev=rev, secs=secs, len=sum(s["len"] for s in secs), x=x, y=y, q=q, pred=None, succ=None, junc=0)
            road["off"] = [(0, r.choice([0, U, -U // 2]), 0)] if self.o["offsets"] and r.random() < 0.25 else [(0, 0, 0)]
            road["elev"] = [(0, r.randint(-3, 3) * U, r.choice([0, 0, 1, -1]))] if self.o["elev"] and r.random() < 0.4 else [(0, 0, 0)]
            if self.o["elev"] and r.random() < 0.3:
                s1 = road["len"] // 3
                e0 = road["elev"][0]
                road["elev"].append((s1, e0[1] + s1 * e0[2] // 16, -e0[2]))
            if self.o["offsets"] and r.random() < 0.2:
                road["off"].append((road["len"] // 2, r.choice([0, U // 2, -U]), 0))
            road["spd"] = [(0, r.choice([30, 50, 80, 100]))] if r.random() < 0.7 else []
            if road["spd"] and r.random() < 0.5:
                road["spd"].append((road["len"] // 2 + 77, r.choice([40, 60, 90])))
            self.roads.append(road)
            c = "end" if rev else "start"
            if first is None:
                first = (idx, c)
            else:
                self.link(prev, idx, c)
            prev = idx
            dx, dy = [(1, 0), (0, 1), (-1, 0), (0, -1)][q]
            x, y = x + dx * road["len"], y + dy * road["len"]
        if self.budget > 0 and any(l[1] in DRIV for l in R):
            self.budget -= 1
            self.junction(prev, x, y, q, R, L)
        return first

    def far(self, i):
        return "start" if self.roads[i]["rev"] else "end"

    def setlink(self, i, where, what):
        self.roads[i]["pred" if where == "start" else "succ"] = what

    def link(self, a, b, cb):
        """chain end of road a to contact cb of road b"""
        ca = self.far(a)
        self.setlink(a, ca, ("road", b, cb))
        self.setlink(b, cb, ("road", a, ca))

    def lane_id(self, i, sec, key):
        """id of lane key in section sec (chain order) of road i"""
        rd = self.roads[i]
        s = rd["secs"][sec]
        sg = -1 if not rd["rev"] else 1
        for n, l in enumerate(s["R"]):
            if l[0] == key:
                return sg * (n + 1)
        for n, l in enumerate(s["L"]):
            if l[0] == key:
                return -sg * (n + 1)
        return None

    def junction(self, inc, x, y, q, R, L):
        r = self.rng
        j = len(self.juncs)
        J = dict(conns=[])
        self.juncs.append(J)
        self.setlink(inc, self.far(inc), ("junction", j, None))
        opts = [0, 1, 3] if self.o["turns"] else [0]
        r.shuffle(opts)
        drv = [l for l in R if l[1] in DRIV]
        for turn in opts[:r.randint(2, 3)]:
            use = drv if r.random() < 0.6 or len(drv) < 2 else r.sample(drv, r.randint(1, len(drv)))
            use = sorted(use, key=lambda l: R.index(l))
            q2 = (q + turn) % 4
            dx, dy = [(1, 0), (0, 1), (-1, 0), (0, -1)][q2]
            ln = r.randrange(30 * U, 80 * U)
            ln2 = r.randrange(30 * U, 80 * U)
            # connecting road out
            ci = len(self.roads)
            rev = r.random() < 0.4
            self.roads.append(dict(rev=rev, secs=[dict(len=ln, R=list(use), L=[], w={l[0]: [(0, 3 * U, 0)] for l in use})], len=ln, x=x, y=y, q=q2, pred=None, succ=None, junc=j + 1, off=[(0, 0, 0)], elev=[(0, 0, 0)], spd=[]))
            # the outgoing chain
            out_L = [self.newlane() for _ in range(r.randint(1, 2))] if L else []
            fi, fc = self.grow(x + dx * ln, y + dy * ln, q2, list(use) + ([self.newlane()] if r.random() < 0.3 else []), out_L, None, n=r.randint(1, 2))
            near, far = ("end", "start") if rev else ("start", "end")
            self.setlink(ci, near, ("road", inc, self.far(inc)))
            self.setlink(ci, far, ("road", fi, fc))
            self.setlink(fi, fc, ("junction", j, None))
            last = len(self.roads[inc]["secs"]) - 1
            J["conns"].append(dict(inc=inc, con=ci, contact=near, links=[(self.lane_id(inc, last, l[0]), self.lane_id(ci, 0, l[0])) for l in use]))
            # and back
            if out_L and L:
                m = min(len([l for l in L if l[1] in DRIV]), len(out_L))
                tgt = [l for l in L if l[1] in DRIV][:m]
                src = [l for l in out_L][:m]
                keys = [self.newlane() for _ in range(m)]
                bi = len(self.roads)
                rev = r.random() < 0.4
                # drawn from the far end towards the incoming road: heading opposite, lanes on the right in travel direction
                q3 = (q2 + 2) % 4
                self.roads.append(dict(rev=rev, secs=[dict(len=ln, R=keys, L=[], w={l[0]: [(0, 3 * U, 0)] for l in keys})], len=ln, x=x + dx * ln, y=y + dy * ln, q=q3, pred=None, succ=None, junc=j + 1, off=[(0, 0, 0)], elev=[(0, 0, 0)], spd=[]))
                near, far = ("end", "start") if rev else ("start", "end")
                self.setlink(bi, near, ("road", fi, fc))
                self.setlink(bi, far, ("road", inc, self.far(inc)))
                J["conns"].append(dict(inc=fi, con=bi, contact=near, links=[(self.lane_id(fi, 0, s[0]), self.lane_id(bi, 0, k[0])) for s, k in zip(src, keys)]))
                self.roads[bi]["back"] = {k[0]: t[0] for k, t in zip(keys, tgt)}, {k[0]: s[0] for k, s in zip(keys, src)}

    # ---- networks with several ways from place to place: rings, and branches that part and meet again (the geometry does not close)
    def straight(self, n, R, L):
        """n linked roads with the same lanes: (first, last)"""
        r, a = self.rng, len(self.roads)
        for k in range(n):
            secs = [dict(len=r.randrange(20 * U, 90 * U), R=list(R), L=list(L), w={l[0]: [(0, 3 * U, 0)] for l in R + L}) for _ in range(r.randint(1, 2))]
            self.roads.append(dict(rev=r.random() < 0.4, secs=secs, len=sum(s["len"] for s in secs), x=300 * U * k, y=100 * U * len(self.roads), q=0, pred=None, succ=None, junc=0, off=[(0, 0, 0)], elev=[(0, 0, 0)], spd=[]))
            if k:
                self.link(a + k - 1, a + k, self.near(a + k))
        return a, a + n - 1

    def near(self, i):
        return "end" if self.roads[i]["rev"] else "start"

    def connect(self, j, a, ca, src, b, cb, dst):
        """a connecting road from contact ca of road a to contact cb of road b"""
        r, ln, m = self.rng, self.rng.randrange(10 * U, 60 * U), min(len(src), len(dst))
        keys, i = [self.newlane() for _ in range(m)], len(self.roads)
        self.roads.append(dict(rev=r.random() < 0.4, secs=[dict(len=ln, R=keys, L=[], w={l[0]: [(0, 3 * U, 0)] for l in keys})], len=ln, x=0, y=100 * U * i, q=0, pred=None, succ=None, junc=j + 1, off=[(0, 0, 0)], elev=[(0, 0, 0)], spd=[]))
        self.setlink(i, self.near(i), ("road", a, ca))
        self.setlink(i, self.far(i), ("road", b, cb))
        self.setlink(a, ca, ("junction", j, None))
        self.setlink(b, cb, ("junction", j, None))
        self.roads[i]["back"] = {k[0]: t[0] for k, t in zip(keys, dst)}, {k[0]: t[0] for k, t in zip(keys, src)}
        sec = 0 if ca == self.near(a) else len(self.roads[a]["secs"]) - 1
        self.juncs[j]["conns"].append(dict(inc=a, con=i, contact=self.near(i), links=[(self.lane_id(a, sec, s[0]), self.lane_id(i, 0, k[0])) for s, k in zip(src, keys)]))

    def loop(self):
        r = self.rng
        lanes = lambda n: [self.newlane() for _ in range(n)]
        nr, nl = r.randint(1, 2), r.randint(1, 2)
        R, L = lanes(nr), lanes(nl)
        if r.random() < 0.3:
            a, b = self.straight(r.randint(3, 8), R, L)
            self.link(b, a, self.near(a))
            return
        a0, a1 = self.straight(r.randint(1, 2), R, L)
        R2, L2 = lanes(nr), lanes(nl)
        b0, b1 = self.straight(r.randint(1, 2), R2, L2)
        self.juncs += [dict(conns=[]), dict(conns=[])]
        branch = []
        for _ in range(r.randint(2, 4)):
            Ri, Li = lanes(nr), lanes(nl)
            c0, c1 = self.straight(r.randint(1, 3), Ri, Li)
            branch.append((c0, c1, Ri, Li))
            for step in r.sample(range(4), 4):
                if step == 0:
                    self.connect(0, a1, self.far(a1), R, c0, self.near(c0), Ri)
                elif step == 1:
                    self.connect(1, c1, self.far(c1), Ri, b0, self.near(b0), R2)
                elif step == 2:
                    self.connect(0, c0, self.near(c0), Li, a1, self.far(a1), L)
                else:
                    self.connect(1, b0, self.near(b0), L2, c1, self.far(c1), Li)
        if self.o["cross"] and r.random() < self.o["cross"]:      # turns from branch to branch
            have = set()
            for _ in range(r.randint(1, 4)):
                A, B = r.sample(branch, 2)
                far = r.random() < 0.5
                if (far, min(A[0], B[0]), max(A[0], B[0])) in have:      # one connecting road per pair of roads
                    continue
                have.add((far, min(A[0], B[0]), max(A[0], B[0])))
                if far:
                    self.connect(1, A[1], self.far(A[1]), A[2], B[1], self.far(B[1]), B[3])
                else:
                    self.connect(0, A[0], self.near(A[0]), A[3], B[0], self.near(B[0]), B[2])
        if r.random() < 0.5:      # and round again
            d0, d1 = self.straight(r.randint(1, 3), R, L)
            self.link(d1, a0, self.near(a0))
            self.juncs.append(dict(conns=[]))
            self.connect(2, b1, self.far(b1), R2, d0, self.near(d0), R)
            self.connect(2, d0, self.near(d0), L, b1, self.far(b1), L2)

    # ---- OpenDRIVE view -------------------------------------------------------------------------------------------------------
    def neighbour_lane(self, i, side, key):
        """lane id on the road linked at contact side of road i for lane key, or None"""
        rd = self.roads[i]
        l = rd["pred"] if side == "start" else rd["succ"]
        if not l or l[0] != "road":
            return None
        o = self.roads[l[1]]
        sec = (len(o["secs"]) - 1 if o["rev"] else 0) if l[2] == "start" else (0 if o["rev"] else len(o["secs"]) - 1)
        if "back" in rd:
            to, fr = rd["back"]
            near = "end" if rd["rev"] else "start"
            k = (fr if side == near else to).get(key)
        else:
            k = key
        if "back" in o and rd["junc"] == 0:
            return None
        return self.lane_id(l[1], sec, k)

    def sc(self):
        """the network in the form of RoadNet.tla"""
        out = []
        for i, rd in enumerate(self.roads):
            ns = len(rd["secs"])
            order = list(range(ns))[::-1] if rd["rev"] else list(range(ns))
            secs, s = [], 0
            for pos, m in enumerate(order):
                sec = rd["secs"][m]
                lanes = []
                for l in sec["R"] + sec["L"]:
                    lid = self.lane_id(i, m, l[0])
                    w = sec["w"][l[0]]
                    if rd["rev"]:
                        w2, end = [], sec["len"]
                        for so, a, b in reversed(w):
                            w2.append((sec["len"] - end, a + b * (end - so) // 16, -b))
                            end = so
                        w = w2
                    nxt = self.lane_id(i, order[pos + 1], l[0]) if pos + 1 < ns else self.neighbour_lane(i, "end", l[0])
                    prv = self.lane_id(i, order[pos - 1], l[0]) if pos else self.neighbour_lane(i, "start", l[0])
                    lanes.append(dict(id=lid, ty=l[1], w=[dict(s=a, a=b, b=c) for a, b, c in w], succ=nxt or 0, pred=prv or 0))
                lanes.sort(key=lambda z: -z["id"])
                secs.append(dict(s=s, len=sec["len"], lanes=lanes))
                s += sec["len"]
            dx, dy = [(1, 0), (0, 1), (-1, 0), (0, -1)][rd["q"]]
            x, y, q = (rd["x"], rd["y"], rd["q"]) if not rd["rev"] else (rd["x"] + dx * rd["len"], rd["y"] + dy * rd["len"], (rd["q"] + 2) % 4)
            lk = lambda z: dict(k="none", i=0, c="") if not z else dict(k=z[0], i=z[1] + 1, c=z[2] or "")
            f = lambda recs: [dict(s=a, a=b, b=c) for a, b, c in recs]
            out.append(dict(len=rd["len"], x=x, y=y, q=q, secs=secs, off=f(rd["off"]), elev=f(rd["elev"]), pred=lk(rd["pred"]), succ=lk(rd["succ"]), junc=rd["junc"],
                            spd=[dict(s=a, v=b) for a, b in rd["spd"]]))
        js = [dict(conns=[dict(inc=c["inc"] + 1, con=c["con"] + 1, contact=c["contact"], links=[dict(f=a, t=b) for a, b in c["links"]]) for c in J["conns"]]) for J in self.juncs]
        return dict(roads=out, juncs=js)


def xodr(sc, names, jnames, rule=None, signals=""):
    s = '<?xml version="1.0"?><OpenDRIVE><header revMajor="1" revMinor="5" name="" version="1" date="" north="0" south="0" east="0" west="0"/>'
    m = lambda v: repr(v / U)
    for i, r in enumerate(sc["roads"]):
        lk = ""
        for tag, z in (("predecessor", r["pred"]), ("successor", r["succ"])):
            if z["k"] == "road":
                lk += '<%s elementType="road" elementId="%s" contactPoint="%s"/>' % (tag, names[z["i"] - 1], z["c"])
            elif z["k"] == "junction":
                lk += '<%s elementType="junction" elementId="%s"/>' % (tag, jnames[z["i"] - 1])
        s += '<road name="" length="%s" id="%s" junction="%s"%s><link>%s</link>' % (m(r["len"]), names[i], jnames[r["junc"] - 1] if r["junc"] else "-1", ' rule="%s"' % rule if rule else "", lk)
        for t in r["spd"]:
            s += '<type s="%s" type="town"><speed max="%d" unit="m/s"/></type>' % (m(t["s"]), t["v"])
        s += '<planView><geometry s="0" x="%s" y="%s" hdg="%r" length="%s"><line/></geometry></planView>' % (m(r["x"]), m(r["y"]), [0.0, 1.5707963267948966, 3.141592653589793, 4.71238898038469][r["q"]], m(r["len"]))
        s += '<elevationProfile>%s</elevationProfile><lateralProfile/>' % "".join('<elevation s="%s" a="%s" b="%r" c="0" d="0"/>' % (m(e["s"]), m(e["a"]), e["b"] / 16) for e in r["elev"])
        s += "<lanes>" + "".join('<laneOffset s="%s" a="%s" b="%r" c="0" d="0"/>' % (m(e["s"]), m(e["a"]), e["b"] / 16) for e in r["off"])
        for c in r["secs"]:
            def lane(l):
                k = ('<predecessor id="%d"/>' % l["pred"] if l["pred"] else "") + ('<successor id="%d"/>' % l["succ"] if l["succ"] else "")
                return '<lane id="%d" type="%s" level="false"><link>%s</link>%s</lane>' % (
                    l["id"], NAME[l["ty"]], k, "".join('<width sOffset="%s" a="%s" b="%r" c="0" d="0"/>' % (m(w["s"]), m(w["a"]), w["b"] / 16) for w in l["w"]))
            le = "".join(lane(l) for l in c["lanes"] if l["id"] > 0)
            ri = "".join(lane(l) for l in c["lanes"] if l["id"] < 0)
            s += '<laneSection s="%s">%s<center><lane id="0" type="none" level="false"/></center>%s</laneSection>' % (m(c["s"]), "<left>%s</left>" % le if le else "", "<right>%s</right>" % ri if ri else "")
        s += "</lanes>" + (signals[i] if signals else "") + "</road>"
    n = 0
    for j, J in enumerate(sc["juncs"]):
        s += '<junction name="" id="%s">' % jnames[j]
        for k, c in enumerate(J["conns"]):
            s += '<connection id="%d" incomingRoad="%s" connectingRoad="%s" contactPoint="%s">%s</connection>' % (
                k, names[c["inc"] - 1], names[c["con"] - 1], c["contact"], "".join('<laneLink from="%d" to="%d"/>' % (a["f"], a["t"]) for a in c["links"]))
        s += "</junction>"
    return s + "</OpenDRIVE>"
