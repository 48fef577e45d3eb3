"""mkseed.py SPEC.py: makes /verif/seeded/<id>/ from a spec (ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO) after
confirming that the change builds, passes the stable tests and fails its demonstration only when applied."""
import json, os, subprocess, sys, runpy
S = runpy.run_path(sys.argv[1])
R = "/repo"
sh = lambda c, **k: subprocess.run(c, shell=True, capture_output=True, text=True, **k)
assert not sh("git -C /repo status --porcelain").stdout, "repo not clean"
d = f"/verif/seeded/{S['ID']}"
os.makedirs(d, exist_ok=True)
open(d + "/demo.py", "w").write(S["DEMO"].lstrip("\n"))
open(d + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH="$PWD/src"\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
os.chmod(d + "/demo.sh", 0o755)
base = sh(f"bash {d}/demo.sh", cwd=R)
assert base.returncode == 0, ("demo fails on the unchanged tree", base.stdout[-800:], base.stderr[-1500:])
try:
    for f, old, new in S["EDITS"]:
        p = f"{R}/src/actuarialmath/{f}"
        t = open(p).read()
        assert t.count(old) == 1, (f, old, t.count(old))
        open(p, "w").write(t.replace(old, new))
    diff = sh("git -C /repo diff").stdout
    open(d + "/patch.diff", "w").write(diff)
    # originality: removed lines must exist in the base commit
    for f, old, new in S["EDITS"]:
        orig = sh(f"git -C /repo show 1706b9f:src/actuarialmath/{f}").stdout.splitlines()
        rem = [l[1:] for l in sh(f"git -C /repo diff -U0 src/actuarialmath/{f}").stdout.splitlines() if l.startswith("-") and not l.startswith("---")]
        for l in rem:
            if l not in orig: print("WARNING not an original line:", l)
    b = sh("bash /opt/vp/build.sh"); assert b.returncode == 0, b.stdout
    t = sh("bash /tmp/rt.sh"); assert t.stdout.strip().endswith("[]"), ("stable tests", t.stdout[-600:])
    m = sh(f"bash {d}/demo.sh", cwd=R)
    assert m.returncode != 0, "demo passes with the change"
    print("ok", S["ID"], (m.stderr or m.stdout).strip().splitlines()[-1:])
    json.dump({"property": S["PROP"], "needs": S["NEEDS"], "what_it_breaks": S["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
except AssertionError as e:
    print("REJECTED", S["ID"], e)
    sh(f"rm -rf {d}")
    sys.exit(1)
finally:
    sh("git -C /repo checkout -- .")
