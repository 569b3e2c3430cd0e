"""mk(id, property, [(file, old, new)...], needs, breaks, demo): write /verif/seeded/<id> from an edit of /repo (which is undone)."""
import subprocess, os, json, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SE = "EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/"
OT = "EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/"
LIB = "EnvironmentSimulator/Libraries/esminiLib/"
CM = "EnvironmentSimulator/Modules/CommonMini/"
RM = "EnvironmentSimulator/Modules/RoadManager/"
PB = "EnvironmentSimulator/Modules/PlayerBase/"


def mk(id, prop, edits, needs, breaks, demo, extra=(), sim=True):
    assert not subprocess.check_output(["git", "-C", "/repo", "status", "--porcelain"]).strip()
    d = V + "/seeded/" + id
    os.makedirs(d, exist_ok=True)
    try:
        for f, old, new in edits:
            p = "/repo/" + f
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", "/repo", "diff"], text=True))
    finally:
        subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    if sim:
        shutil.copy(V + "/tools/demo_sim.py", d + "/sim.py")
    open(d + "/demo.py", "w").write(demo)
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexport ESM_ROOT="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$(cd "$(dirname "$0")" && pwd)"\nexec python3 "$PYTHONPATH/demo.py"\n')
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
