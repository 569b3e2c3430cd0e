#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (PROPS below and the FAMILY table of check.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SE = "EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/"
OT = "EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/"
LIB = "EnvironmentSimulator/Libraries/esminiLib/"
CM = "EnvironmentSimulator/Modules/CommonMini/"
RML = "EnvironmentSimulator/Libraries/esminiRMLib/"
RM = "EnvironmentSimulator/Modules/RoadManager/"


def P(id, title, statement, over, text, why, files, mech, observe, technique, note, level="model_checking"):
    return dict(prop=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                          anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)),
                technique=technique, note=note, level=level)


PROPS = []
exec(open(V + "/tools/props.py").read())

NOT_APPLICABLE = []


def main():
    with open(V + "/properties.jsonl", "w") as f:
        for p in PROPS:
            assert len(p["prop"]["title"]) <= 80, p["prop"]["title"]
            f.write(json.dumps(p["prop"]) + "\n")
    m = dict(version=1, setup_cmd="python3 tools/build.py", hooks=dict(guard="none", enable="no hooks: the checks observe esmini through its public C API only", source_commits=[]),
             checks=[dict(property=p["prop"]["id"], quick_cmd="python3 check.py %s quick" % p["prop"]["id"], thorough_cmd="python3 check.py %s thorough" % p["prop"]["id"],
                          technique=p["technique"], level=p["level"], level_note=p["note"]) for p in PROPS],
             not_applicable=NOT_APPLICABLE,
             notes="TLA+ checked with TLC. Exit 0: held; exit 1 with a VIOLATION line: violated; exit 2: no answer (build or tool failure). See DESIGN.md.")
    json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)


if __name__ == "__main__":
    main()
