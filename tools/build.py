#!/usr/bin/env python3
"""Build esmini (headless, no OSG/OSI/SUMO) from /repo's current working tree, plus the /verif drivers.

Objects are cached by content with ccache (CCACHE_DIR in /verif/.build), so a changed source is always seen
(ccache hashes the preprocessed text, never timestamps) and unchanged ones are not compiled again.
Output: /verif/.build/bin/<driver>.  Prints nothing on success.  Exit 2 on a build error (not a property verdict).
"""
import os, sys, glob, subprocess, shutil, concurrent.futures as cf, hashlib, fcntl

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
ES = REPO + "/EnvironmentSimulator"
MOD = ES + "/Modules"
INC = ["-I" + p for p in (
    MOD + "/CommonMini", MOD + "/CommonMini/project_options", MOD + "/RoadManager", MOD + "/ScenarioEngine/SourceFiles",
    MOD + "/ScenarioEngine/OSCTypeDefs", MOD + "/Controllers", MOD + "/PlayerBase", MOD + "/ViewerBase",
    ES + "/Libraries/esminiLib", ES + "/Libraries/esminiRMLib", ES + "/Applications/replayer",
    REPO + "/externals/pugixml", REPO + "/externals/yaml", REPO + "/externals/expr", REPO + "/externals/dirent")]
FLAGS = ["-DFMT_SHARED", "-D_USE_GTEST", "-pthread", "-fPIC", "-O1", "-DNDEBUG", "-w"] + os.environ.get("VERIF_CXXFLAGS", "").split()
CC = ["ccache"] if shutil.which("ccache") else []


def sources():
    s = []
    for d in ("CommonMini", "Controllers", "PlayerBase", "RoadManager", "ScenarioEngine/OSCTypeDefs", "ScenarioEngine/SourceFiles"):
        s += sorted(glob.glob("%s/%s/*.cpp" % (MOD, d))) + sorted(glob.glob("%s/%s/*.c" % (MOD, d)))
    skip = {"ControllerSumo.cpp", "OSIReporter.cpp", "OSITrafficCommand.cpp", "Plot.cpp", "version.cpp"}
    s = [f for f in s if os.path.basename(f) not in skip]
    s += [REPO + "/externals/pugixml/pugixml.cpp", REPO + "/externals/yaml/yaml.cpp"]
    s += [f for f in sorted(glob.glob(REPO + "/externals/expr/*.c"))]
    s += [ES + "/Libraries/esminiLib/esminiLib.cpp", ES + "/Libraries/esminiRMLib/esminiRMLib.cpp", ES + "/Applications/replayer/Replay.cpp"]
    s += [VERIF + "/harness/version_stub.cpp"]
    return s


def drivers():
    return sorted(glob.glob(VERIF + "/harness/drv_*.cpp")) + [ES + "/Applications/replayer/dat2csv.cpp"]


def compile_one(src):
    rel = os.path.relpath(src, "/").replace("/", "_")
    obj = "%s/obj/%s.o" % (B, rel)
    comp = ["gcc"] if src.endswith(".c") else ["g++", "-std=gnu++17"]
    p = subprocess.run(CC + comp + FLAGS + INC + ["-c", src, "-o", obj], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return src, obj, p.returncode, p.stdout


def main():
    os.makedirs(B + "/obj", exist_ok=True)
    os.makedirs(B + "/bin", exist_ok=True)
    lock = open(B + "/lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    os.environ.setdefault("CCACHE_DIR", B + "/ccache")
    os.environ["CCACHE_MAXSIZE"] = "2G"
    os.environ["CCACHE_SLOPPINESS"] = ""
    os.environ["CCACHE_NODIRECT"] = "1"
    srcs, drvs = sources(), drivers()
    shim = VERIF + "/harness/shim.cpp"
    big = ("ScenarioReader", "RoadManager.cpp", "esminiLib", "OSCPrivateAction", "ScenarioEngine.cpp")
    order = sorted(srcs + drvs + [shim], key=lambda f: (not any(b in f for b in big), -os.path.getsize(f)))
    objs = {}
    with cf.ThreadPoolExecutor(int(os.environ.get("VERIF_JOBS", "8"))) as ex:
        for src, obj, rc, out in ex.map(compile_one, order):
            if rc != 0:
                sys.stderr.write("BUILD ERROR %s\n%s\n" % (src, out[-4000:]))
                return 2
            objs[src] = obj
    lib = B + "/obj/libesm.a"
    if os.path.exists(lib):
        os.remove(lib)
    p = subprocess.run(["ar", "rcs", lib] + [objs[s] for s in srcs], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        sys.stderr.write(p.stdout)
        return 2

    def link(d):
        exe = B + "/bin/" + os.path.basename(d)[:-4]
        p = subprocess.run(["g++", "-pthread", objs[d], "-o", exe + ".tmp", "-Wl,--whole-archive", lib, "-Wl,--no-whole-archive", "-lfmt", "-ldl"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0:
            os.replace(exe + ".tmp", exe)
        return p

    def link_so():
        so = B + "/bin/libesm.so"
        p = subprocess.run(["g++", "-shared", "-pthread", objs[shim], "-o", so + ".tmp", "-Wl,--whole-archive", lib, "-Wl,--no-whole-archive", "-lfmt", "-ldl"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0:
            os.replace(so + ".tmp", so)
        return p
    with cf.ThreadPoolExecutor(8) as ex:
        for p in ex.map(lambda f: f(), [link_so] + [lambda d=d: link(d) for d in drvs]):
            if p.returncode:
                sys.stderr.write(p.stdout[-4000:])
                return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
