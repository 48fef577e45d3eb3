"""gen_sigs.py: writes props/sigs.py, the documented defaults of public methods (run once; the result is part of the contracts)"""
import inspect, os, sys
sys.path.insert(0, "/repo/src")
import actuarialmath
import actuarialmath.policyvalues
MODS = [m for n, m in sorted(sys.modules.items()) if n.startswith("actuarialmath.")]
out = {}
for m in MODS:
    for c in vars(m).values():
        if not isinstance(c, type) or c.__module__ != m.__name__ or c.__name__ in ("_Blog", "PPrint"):
            continue
        for n, f in vars(c).items():
            f = getattr(f, "__func__", f)
            if not inspect.isfunction(f) or "plot" in n or n.startswith("_") and n != "__init__":
                continue
            d = {p: v.default for p, v in inspect.signature(f).parameters.items()
                 if v.default is not inspect._empty and v.default != -1 and (v.default is None or isinstance(v.default, (int, float, str)))}
            if d:
                out.setdefault(c.__name__, {})[n] = d
with open(os.path.dirname(__file__) + "/../props/sigs.py", "w") as f:
    f.write("# documented default of every optional parameter (written once by tools/gen_sigs.py)\nSIGS = {\n")
    for c in sorted(out):
        f.write(f"    {c!r}: {{\n")
        for n in sorted(out[c]):
            f.write(f"        {n!r}: {out[c][n]!r},\n")
        f.write("    },\n")
    f.write("}\n")
