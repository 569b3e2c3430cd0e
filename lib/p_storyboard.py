"""Properties of the storyboard engine (Storyboard.tla, StoryboardMC.tla, StoryboardTrace.tla)."""
import random
import vf, sbgen, sbcheck

ALLK = ["set", "add", "mul", "user", "timed", "lat", "inst"]
BASE_MC = dict(multi=0, nvars=2, acts=(1, 2), groups=(1, 1), mans=(1, 1), events=(1, 2), actions=(1, 2), kinds=["user", "timed"], steps=(1, 1), pstate=0.15, ptime=0, initkinds=False)

# property -> (invariants, MC profile, conformance profiles)
P = {
    "P01": dict(what="life cycle", inv=["LegalMoves", "NestedStart", "Nesting", "CompleteAll", "CompleteQuiet"],
                mc=dict(kinds=["set", "user", "timed"], emax=[1, 2], gmax=[1, 2]),
                conf=[dict(kinds=ALLK, stories=(1, 2), dts=[0, 1, 2, 2, 4]), dict(kinds=["set", "timed", "inst"], pnoevtrig=0.4, emax=[1, 2], gmax=[1, 2, 3], pempty=0.1, pacttrig=0.3, mans=(1, 3), pstop=0.05)]),
    "P02": dict(what="event priority", inv=["Override", "Skip", "LegalMoves"],
                mc=dict(events=(2, 3), acts=(1, 1), kinds=["user", "timed"], prio="oosp", pstop=0, emax=[1, 2], pedge=0, pdelay=0, conds=(1, 1), groups_t=(1, 1)),
                conf=[dict(events=(2, 4), acts=(1, 1), groups=(1, 2), mans=(1, 2), actions=(1, 2), kinds=["user", "timed", "user", "timed", "set", "lat"], prio="oossp", emax=[1, 2, 3], pedge=0.15, pdelay=0.05, pstop=0.05, pboardstop=0.03,
                           conds=(1, 1), groups_t=(1, 1), pstate=0.15, steps=(10, 18), pnoevtrig=0.05),
                      dict(events=(3, 5), acts=(1, 1), groups=(1, 1), mans=(1, 2), actions=(1, 1), kinds=["user", "timed"], prio="os", emax=[2, 3], pedge=0, pdelay=0, pstop=0, pboardstop=0, conds=(1, 1), groups_t=(1, 1), pstate=0.1,
                           steps=(10, 18), pnoevtrig=0, pset=1)]),
    "P03": dict(what="execution counts", inv=["NotTooMany", "NotAgain", "NotTooFew", "LegalMoves"],
                mc=dict(events=(1, 2), acts=(1, 1), mans=(1, 2), kinds=["timed", "set"], emax=[1, 2, 3], gmax=[1, 2, 3], pstop=0, pboardstop=0, pedge=0.2, pdelay=0, conds=(1, 1), groups_t=(1, 1), pnoevtrig=0.3),
                conf=[dict(events=(1, 3), groups=(1, 2), mans=(1, 2), kinds=["set", "add", "timed", "inst", "user"], emax=[1, 2, 3, 4, 5], gmax=[1, 2, 3, 4], pedge=0.2, pdelay=0.1, pstop=0.05, pboardstop=0, conds=(1, 1), groups_t=(1, 1),
                           pnoevtrig=0.35, steps=(14, 24), pset=0.8),
                      dict(events=(1, 2), acts=(1, 1), groups=(1, 1), kinds=["set", "timed", "inst"], prio="op", emax=[1, 2, 3], gmax=[2, 3], pedge=0.1, pdelay=0.1, pstop=0, pboardstop=0, conds=(1, 1), groups_t=(1, 1), pnoevtrig=0.5,
                           steps=(16, 26), pacttrig=0.2)]),
    "P04": dict(what="triggers", inv=["Triggers", "LegalMoves"],
                mc=dict(events=(1, 2), acts=(1, 1), prio="p", kinds=["timed", "user"], emax=[1, 2], gmax=[1], pstop=0, pboardstop=0, pedge=0.6, pdelay=0.4, conds=(1, 1), groups_t=(1, 1), pnoevtrig=0, pstate=0, ptime=0.2, pacttrig=0.2, emptygroup=0),
                conf=[dict(events=(2, 4), kinds=["timed", "user", "set"], prio="p", emax=[1, 1, 3], pedge=0.5, pdelay=0.35, conds=(1, 3), groups_t=(1, 3), ptime=0.2, pstate=0.1, pstop=0.1, pset=1, steps=(12, 20), dts=[0, 1, 2, 2, 3, 4], emptygroup=0.06),
                      dict(events=(2, 4), acts=(1, 1), groups=(1, 1), kinds=["timed", "user"], prio="p", emax=[1, 2], pedge=0.7, pdelay=0.7, conds=(1, 1), groups_t=(1, 1), ptime=0.1, pstate=0, pstop=0, pboardstop=0, pset=1.3, steps=(14, 22),
                           dts=[1, 1, 2, 3], pnoevtrig=0, pacttrig=0.1, nvars=2)]),
    "P05": dict(what="stop triggers", inv=["Stops", "StopFinal", "NoStopNoEnd", "CompleteQuiet", "LegalMoves"],
                mc=dict(events=(1, 2), acts=(1, 2), kinds=["timed", "user"], pstop=0.8, pboardstop=0.5, pedge=0.1, pdelay=0.1, conds=(1, 2), groups_t=(1, 2), pnoevtrig=0.4, pstate=0),
                conf=[dict(kinds=ALLK, pstop=0.7, pboardstop=0.4, acts=(1, 3), pnoevtrig=0.4, pacttrig=0.5, pstate=0.2), dict(kinds=ALLK, stories=(1, 2), pstop=0.8, pboardstop=0.1, pnoevtrig=0.5, conds=(1, 1), groups_t=(1, 1), pedge=0.2, pset=0.8)]),
    "P06": dict(what="element state conditions", inv=["LegalMoves", "Nesting", "StateCond"],
                mc=dict(events=(2, 3), acts=(1, 1), kinds=["timed", "set"], pstate=0.7, pedge=0.2, pdelay=0, conds=(1, 1), groups_t=(1, 1), pnoevtrig=0.2, emax=[1, 2], pstop=0, pboardstop=0),
                conf=[dict(kinds=ALLK, pstate=0.8, ptime=0.05, events=(2, 4), pedge=0.25, pdelay=0.1, emax=[1, 2, 3], conds=(1, 2), pnoevtrig=0.25, pacttrig=0.4, dts=[0, 1, 2, 2, 4]),
                      dict(kinds=["set", "timed", "user", "inst"], pstate=0.9, ptime=0.02, acts=(2, 3), events=(1, 2), pedge=0.1, pdelay=0.05, conds=(1, 1), groups_t=(1, 2), pnoevtrig=0.3, pacttrig=0.6, pstop=0.4, pboardstop=0.2)]),
    "P07": dict(what="one action per domain", inv=["Exclusive", "LegalMoves"],
                mc=dict(events=(2, 3), acts=(1, 2), prio="p", kinds=["timed", "inst", "timed"], actions=(1, 2), pstop=0, pboardstop=0, pedge=0.1, pdelay=0, conds=(1, 1), groups_t=(1, 1), initkinds=True),
                conf=[dict(kinds=["timed", "lat", "inst", "timed", "lat"], acts=(1, 3), groups=(1, 2), events=(1, 3), actions=(1, 3), prio="pps", pedge=0.1, pdelay=0.05, conds=(1, 1), groups_t=(1, 1), pstop=0.05, emax=[1, 2], multi=0.4, pset=0.9),
                      dict(kinds=["timed", "timed", "inst"], acts=(1, 2), groups=(1, 2), events=(1, 3), actions=(1, 2), prio="p", pedge=0.1, conds=(1, 1), groups_t=(1, 1), pstop=0.05, emax=[1, 2], multi=0.4, pset=0.9, pnoevtrig=0.2)]),
}


def shapes(prop, n, frames, sd):
    rng = random.Random("%s-mc-%d" % (prop, sd))
    out = []
    for _ in range(n):
        sb, _s = sbgen.gen(rng, **dict(BASE_MC, **P[prop]["mc"]))
        out.append(dict(sc=sb.sc(), frames=frames, dts=[2, 3], dom=[0, 1]))
    return out


def check(prop, tier):
    chk = vf.Check(prop, tier)
    d = P[prop]
    quick = tier == "quick"
    vf.build()
    with vf.Scratch() as wd:
        # 1. the guarantees hold on the specification, for every choice of the environment
        sh = shapes(prop, 40 if quick else 150, 5 if quick else 7, 0 if quick else vf.seed())
        f = vf.dump(wd + "/shapes.json", sh)
        r = vf.tlc("StoryboardMC", "SPECIFICATION Spec\nVIEW View\n" + "".join("INVARIANT %s\n" % i for i in d["inv"]), wd, env={"SHAPES": f}, timeout=700 if quick else 6000)
        if not r["ok"]:
            raise vf.Infra("the specification breaks its own guarantee %s\n%s" % (r["violated"], r["out"][-3000:]))
        chk.add_mc(r)
        chk.cov["model"] = dict(shapes=len(sh), frames=sh[0]["frames"], distinct_states=r["distinct"], transitions=r["states"], invariants=d["inv"])
        # 2. esmini behaves as the specification
        rng = random.Random("%s-%d" % (prop, vf.seed()))
        for i, prof in enumerate(d["conf"]):
            for batch in range(1 if quick else 6):
                cases = [sbgen.gen(rng, **prof) for _ in range(300 if quick else 500)]
                runs, bad = sbcheck.conformance(chk, cases, wd, d["what"])
                sb, steps, rc, obs, _ = runs[0]
                chk.sample(dict(scenario_elements=[p for p in sb.paths if p][:12], steps=steps[:6], first_frames=obs[:2]))
                if bad:
                    break
        if prop == "P07":
            import p_domains
            p_domains.add(chk, prop, quick, wd)
    chk.assum = ["scenarios are generated (seeded); time steps are multiples of 1/16 s so that time arithmetic is exact",
                 "private actions used: speed (linear, time), lane change (linear, time), teleport" + ("; which actions run also for all other private actions but lateral distance, lights and trailers" if prop == "P07" else "")]
    return chk.finish()
