"""Conformance of recorded esmini runs with Storyboard.tla."""
import os, random, json
import vf, sbgen

CFG = "SPECIFICATION Spec\nINVARIANT Conforms\nVIEW View\n"


def run_cases(cases, wd):
    """cases: [(sb, steps)] -> list of (sb, steps, rc, observed)"""
    jobs = []
    for n, (sb, steps) in enumerate(cases):
        xf, sf = "%s/c%d.xosc" % (wd, n), "%s/c%d.steps" % (wd, n)
        open(xf, "w").write(sb.xml())
        with open(sf, "w") as f:
            for dt, ch in steps:
                f.write("%r %s\n" % (dt / sbgen.UNIT, " ".join("v v%d %d" % (v, x) for v, x in ch.items())))
        jobs.append([xf, sf])
    res = vf.drive("drv_sb", jobs, wd)
    return [(sb, steps, rc, sbgen.observed(sb, lines), lines) for (sb, steps), (rc, lines) in zip(cases, res)]


def trace(sb, steps, obs):
    inp = [dict(dt=0, w=[])] + [dict(dt=dt, w=[[v, x] for v, x in ch.items()]) for dt, ch in steps]
    return dict(sc=sb.sc(), inp=inp, obs=obs)


def validate(runs, wd):
    """Returns (tlc result, set of indices of rejected runs, messages)."""
    tf = vf.dump(wd + "/traces.json", [trace(sb, steps, obs) for sb, steps, rc, obs, _ in runs])
    r = vf.tlc("StoryboardTrace", CFG, wd, env={"TRACES": tf}, args=["-continue"])
    bad = {}
    for p in r["prints"]:
        bad[p[0] - 1] = (p[1], json.dumps(p[2:]))
    if (len(bad) > 0) != (not r["ok"]):
        raise vf.Infra("TLC verdict and printed mismatches disagree\n" + r["out"][-2000:])
    if not bad:
        want = sum(len(s) + 2 for _, s, _, _, _ in runs)
        if r["distinct"] != want:
            raise vf.Infra("traces not consumed: %d of %d states" % (r["distinct"], want))
    return r, bad


def conformance(chk, cases, wd, what):
    runs = run_cases(cases, wd)
    r, bad = validate(runs, wd)
    for n, (sb, steps, rc, obs, _) in enumerate(runs):
        if rc != "ok" and n not in bad:
            bad[n] = (0, "driver ended with " + rc)
    if bad:
        idx = sorted(bad)[:5]
        again = run_cases([cases[n] for n in idx], wd)       # a rejection is reported only if it repeats
        r2, bad2 = validate(again, wd)
        for m, n in enumerate(idx):
            if m in bad2 or again[m][2] != "ok":
                sb, steps, rc, obs, lines = again[m]
                k, msg = bad2.get(m, (0, rc))
                chk.violation("%s: run %d, frame %d: observed %s, specification: %s" % (what, n, k, json.dumps(obs[k - 1]) if 0 < k <= len(obs) else rc, msg),
                              dict(kind="storyboard", xosc=sb.xml(), steps=steps, frame=k, expected=msg, observed=obs[k - 1] if 0 < k <= len(obs) else rc))
    chk.add("traces_validated_against_impl", len(runs))
    chk.add("frames_compared", sum(len(s) + 1 for _, s, _, _, _ in runs))
    chk.add("state_changes_compared", sum(len(o["log"]) for _, _, _, obs, _ in runs for o in obs))
    chk.add_mc(r)
    return runs, bad
