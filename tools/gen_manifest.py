import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from pyvc.registry import PROPERTIES
props = [json.loads(l) for l in open(R + "/properties.jsonl") if l.strip()]
NOTE = ("Deductive: every listed function's real body is executed symbolically over all inputs and every path is checked against "
        "its contract (exact ring algebra with symbolic sums/integrals, z3 for path feasibility and side conditions); callers see "
        "callee contracts. Trusted: the source transforms and algebra kernel of pyvc, z3, floats treated as exact reals. Failed "
        "obligations are replayed on the unmodified package; each run also evaluates the same contracts concretely.")
checks = []
for p in props:
    pid = p["id"]
    if pid in PROPERTIES:
        mods, meta = PROPERTIES[pid]
        checks.append({"property": pid,
                       "quick_cmd": f"/opt/venv/bin/python check.py {pid}",
                       "thorough_cmd": f"VERIF_TIER=thorough /opt/venv/bin/python check.py {pid}",
                       "technique": meta.get("technique", "contract-based deductive verification (symbolic execution of the real "
                                                          "Python source against function contracts, ring algebra + z3)"),
                       "level": meta.get("level", "proof"), "level_note": meta.get("note", "") + NOTE})
na = [{"property": p["id"], "reason": "check not built yet"} for p in props if p["id"] not in PROPERTIES]
json.dump({"version": 1,
           "setup_cmd": "/opt/venv/bin/python -c \"import sys; sys.path.insert(0,'/opt/veriftools/pyvenv/lib/python3.12/site-packages'); import z3; print(z3.get_version_string())\"",
           "hooks": {"guard": "none", "enable": "no hooks: the checks read /repo/src as it is", "source_commits": []},
           "checks": checks, "not_applicable": na}, open(R + "/MANIFEST.json", "w"), indent=1)
print(len(checks), len(na))
