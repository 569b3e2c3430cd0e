"""esmini's C API from Python (the shared library built from /repo's tree), one forked child per job."""
import ctypes as C, os, json, signal, tempfile, shutil, sys, resource, struct, subprocess
import vf

_L = None
RESTYPE = {"SE_GetSimulationTime": C.c_double, "SE_GetSimTimeStep": C.c_double, "SE_GetObjectOdometer": C.c_double, "SE_GetObjectAcceleration": C.c_double,
           "SE_GetRouteTotalLength": C.c_double, "RM_GetRoadLength": C.c_double, "RM_GetSpeedLimit": C.c_double, "SE_GetOptionSet": C.c_bool, "RM_GetOptionSet": C.c_bool,
           "SE_InjectedActionOngoing": C.c_bool, "SE_GetSeed": C.c_uint, "SE_GetNumberOfPermutations": C.c_uint}
STR = ("SE_GetODRFilename SE_GetParameterName SE_GetVariableName SE_GetObjectPropertyName SE_GetObjectPropertyValue SE_GetObjectTypeName SE_GetObjectName SE_GetOptionValue SE_GetOptionValueByIndex "
       "SE_GetRoadIdString SE_GetJunctionIdString RM_GetRoadIdString RM_GetJunctionIdString RM_GetOptionValue SE_GetObjectModelFileName").split()
JS = ("vf_obj vf_objs vf_roadinfo vf_dist vf_light vf_overrides vf_lamps vf_routepoint vf_sign vf_validity vf_wheel vf_pos vf_laneinfo vf_probe vf_rmdiff vf_rmsign vf_drain vf_rep_open vf_rep_go vf_rep_at").split()


class _F:
    """Call any function of the library by name; floats are passed as doubles, str as char*, and char*/JSON results are decoded."""
    def __getattr__(self, name):
        f = getattr(_L, name)
        kind = "i"
        if name in RESTYPE:
            f.restype = RESTYPE[name]
        elif name in STR:
            f.restype, kind = C.c_char_p, "s"
        elif name in JS:
            f.restype, kind = C.c_char_p, "j"
        else:
            f.restype = C.c_int

        def call(*a):
            args = [x.encode() if isinstance(x, str) else C.c_double(x) if isinstance(x, float) else C.c_bool(x) if isinstance(x, bool) else x for x in a]
            r = f(*args)
            if kind == "s":
                return None if r is None else r.decode(errors="replace")
            if kind == "j":
                return json.loads(r.decode(errors="replace"))
            return r
        self.__dict__[name] = call
        return call


L = _F()


def load():
    global _L
    if _L is None:
        _L = C.CDLL(vf.BUILD + "/bin/libesm.so")
    return L


class Emit:
    def __init__(self, path):
        self.f = open(path, "w")

    def __call__(self, x):
        self.f.write(json.dumps(x) + "\n")
        self.f.flush()


def _child(fn, job, base, limit):
    os.mkdir(base + ".wd")
    os.chdir(base + ".wd")
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    nul = os.open("/dev/null", os.O_WRONLY)
    os.dup2(nul, 1)
    if not os.environ.get("VERIF_ERR"):
        os.dup2(nul, 2)
    signal.alarm(limit)
    em = Emit(base + ".json")
    try:
        fn(job, em)
    except (TypeError, ValueError, ArithmeticError, LookupError) as e:
        # no numbers where there should be some (the library gave nan, or nothing)
        em.f.close()
        with open(base + ".why", "w") as f:
            f.write("%s: %s" % (type(e).__name__, e))
        os._exit(76)
    except BaseException as e:
        import traceback
        em(["PYEXC", traceback.format_exc()])
        os._exit(77)
    os._exit(0)


def fit(x):
    """whole numbers as TLC can hold them"""
    if isinstance(x, bool):
        return x
    if isinstance(x, int):
        return x if abs(x) < 2000000000 else -99999999
    if isinstance(x, list):
        return [fit(y) for y in x]
    if isinstance(x, dict):
        return {k: fit(v) for k, v in x.items()}
    return x


def run(fn, jobs, wd, nproc=None, limit=60):
    """fn(job, emit) runs in a child with a private cwd.  Returns [(rc, [emitted])]; rc is 'ok', 'hang', 'signal N' or 'exit N'."""
    load()
    nproc = nproc or vf.NCPU
    od = tempfile.mkdtemp(prefix="esm-", dir=wd)
    pids, rcs, nxt = {}, [None] * len(jobs), 0
    sys.stdout.flush()
    sys.stderr.flush()
    while nxt < len(jobs) or pids:
        while nxt < len(jobs) and len(pids) < nproc:
            p = os.fork()
            if p == 0:
                try:
                    _child(fn, jobs[nxt], "%s/%d" % (od, nxt), limit)
                finally:
                    os._exit(78)
            pids[p] = nxt
            nxt += 1
        p, st = os.wait()
        if p not in pids:
            continue
        n = pids.pop(p)
        if os.WIFSIGNALED(st):
            rcs[n] = "hang" if os.WTERMSIG(st) == signal.SIGALRM else "signal %d" % os.WTERMSIG(st)
        else:
            rcs[n] = "ok" if os.WEXITSTATUS(st) == 0 else "exit %d" % os.WEXITSTATUS(st)
    res = []
    for n in range(len(jobs)):
        lines = []
        try:
            for l in open("%s/%d.json" % (od, n), errors="replace"):
                try:
                    lines.append(json.loads(l))
                except ValueError:
                    pass
        except OSError:
            pass
        if rcs[n] in ("exit 77", "exit 78"):
            raise vf.Infra("harness error in a child: %s" % (lines[-1:],))
        if rcs[n] == "exit 76":
            rcs[n] = "unusable result: " + open("%s/%d.why" % (od, n)).read()
        res.append((rcs[n], fit(lines)))
    shutil.rmtree(od, ignore_errors=True)
    return res
