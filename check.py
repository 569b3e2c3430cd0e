#!/usr/bin/env python3
"""check.py <property> <quick|thorough>: exit 0 held, 1 violated (with a VIOLATION line), 2 no answer (machinery failure)."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vf

FAMILY = {}
for fam, props in {"p_storyboard": ["P01", "P02", "P03", "P04", "P05", "P06", "P07"], "p_motion": ["P08"], "p_values": ["P09"], "p_road": ["P10", "P11", "P12"], "p_cond": ["P13"], "p_lateral": ["P14"], "p_registry": ["P15"], "p_params": ["P16"], "p_dist": ["P17"], "p_record": ["P18"], "p_session": ["P19"], "p_traj": ["P20"], "p_control": ["P21"], "p_lights": ["P22"], "p_inject": ["P23"], "p_route": ["P24"], "p_keep": ["P25"]}.items():
    for p in props:
        FAMILY[p] = fam


def main():
    prop, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try:
        mod = __import__(FAMILY[prop])
        return mod.check(prop, tier)
    except vf.Infra as e:
        print("NO ANSWER: " + str(e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
