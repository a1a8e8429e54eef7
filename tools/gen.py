"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing)."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None, level="model_checking", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, observe=observe, level=level, na=na))


SIMFILES = [
    "simpeg/simulation.py", "simpeg/base/pde_simulation.py", "simpeg/props.py",
    "simpeg/electromagnetics/frequency_domain/", "simpeg/electromagnetics/time_domain/",
    "simpeg/electromagnetics/natural_source/", "simpeg/electromagnetics/static/",
    "simpeg/electromagnetics/base_1d.py", "simpeg/electromagnetics/viscous_remanent_magnetization/",
    "simpeg/potential_fields/", "simpeg/seismic/", "simpeg/flow/richards/",
]
from props_table import *  # noqa: F401,F403,E402
import props_table

props_table.fill(prop, SIMFILES)

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]])
        if p["observe"]:
            a["observe_at"] = p["observe"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"], anchors=a)) + "\n")
checks = [
    dict(property=p["id"], quick_cmd=f"./check.sh {p['id']} quick", thorough_cmd=f"./check.sh {p['id']} thorough",
         evidence_file=f"evidence/{p['id']}.json", technique=p["technique"], level=p["level"], level_note=p["note"])
    for p in P if not p["na"]
]
man = dict(version=1, setup_cmd="true", checks=checks,
           not_applicable=[dict(property=p["id"], reason=p["na"]) for p in P if p["na"]],
           notes="Every check imports simpeg from /repo's working tree (pure Python, nothing to build) and exhaustively "
                 "enumerates a bounded space of configurations / operation histories / environment answers on the real code. "
                 "See DESIGN.md; listed genuine defects are in known_findings.json.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
