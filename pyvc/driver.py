"""Generates and discharges the obligations of one property, replays failures on the real code, writes evidence."""
import builtins
import hashlib
import importlib
import json
import math
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback
import types
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_SRC = os.environ.get("VERIF_REPO_SRC", "/repo/src")
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("MPLCONFIGDIR", "/tmp/verif-mpl")
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_v, "1")
sys.dont_write_bytecode = True
warnings.filterwarnings("ignore")

from . import alg, sym, loader, harness, tables  # noqa: E402
from .sym import E, Num, Unsupported, PathAbort, rat, wrap  # noqa: E402
from .harness import SymB, ConB, HAVOC, Skip, Binding, Contract  # noqa: E402

PROPS = ROOT + "/props"


# ------------------------------------------------------------------------------------------------- two readings
def con_helpers():
    import scipy.integrate
    import scipy.stats
    import scipy.special

    def integral(f, a, b):
        if a == b:
            return 0.0
        return scipy.integrate.quad(f, a, b, limit=200)[0]
    return dict(integral=integral, exp=math.exp, log=math.log, sqrt=math.sqrt, floor=math.floor, ceil=math.ceil,
                HAVOC=HAVOC, WHOLE=-999, VARIANCE=-2, prod=lambda s: math.prod(s), frac=lambda a, b: a / b,
                Phi=lambda z: scipy.stats.norm.cdf(z), ndtri=lambda p: scipy.special.ndtri(p), SYM=False,
                Contract=Contract, Binding=Binding, isclose=lambda a, b: abs(a - b) < 1e-9, power=lambda a, b: a ** b,
                deriv=None, root_of=None)


def sym_helpers():
    return dict(integral=sym.s_integral, exp=loader.m_exp, log=loader.m_log, sqrt=loader.m_sqrt,
                floor=loader.s_floor, ceil=loader.s_ceil, HAVOC=HAVOC, WHOLE=-999, VARIANCE=-2, prod=loader.s_prod,
                frac=loader.r_div, Phi=lambda z: loader.normcdf(z), ndtri=loader.ndtri, SYM=True,
                Contract=Contract, Binding=Binding, isclose=loader.m_isclose, power=loader.r_pow,
                deriv=sym.s_derivative, root_of=loader.root_of)


class Ns:
    """a set of property files loaded in one reading; `use("life")` gives another file of the same reading"""

    def __init__(self, symbolic):
        self.symbolic = symbolic
        self.mods = {}

    def use(self, name):
        if name in self.mods:
            return self.mods[name]
        path = f"{PROPS}/{name}.py"
        m = types.ModuleType("props." + name)
        self.mods[name] = m
        m.__dict__.update(sym_helpers() if self.symbolic else con_helpers())
        m.__dict__["use"] = self.use
        text = open(path).read()
        if self.symbolic:
            t = loader.load_spec_into(m, text, path)
        else:
            exec(compile(text, path, "exec"), m.__dict__)
        return m


_state = {}


def init(need_real=True):
    if "pkg" not in _state:
        _state["pkg"] = loader.Package(REPO_SRC + "/actuarialmath")
        _state["sym"] = Ns(True)
        _state["con"] = Ns(False)
    if need_real and "real" not in _state:
        sys.path.insert(0, REPO_SRC)
        import actuarialmath
        import actuarialmath.policyvalues
        assert os.path.realpath(actuarialmath.__file__).startswith(os.path.realpath(REPO_SRC)), actuarialmath.__file__
        _state["real"] = actuarialmath
    return _state


def jobs_of(modname):
    m = _state["con"].use(modname)
    out = []
    for h in m.HARNESSES:
        name, fn, cases = h[0], h[1], h[2]
        opts = h[3] if len(h) > 3 else {}
        for i, c in enumerate(cases):
            out.append((modname, name, i, c, opts))
    return out


def find_h(ns, modname, name):
    for h in ns.use(modname).HARNESSES:
        if h[0] == name:
            return h[1]
    raise KeyError(name)


# ------------------------------------------------------------------------------------------------- one job
def _alarm(signum, frame):
    raise Unsupported("time limit")


def run_sym(modname, name, case, limit, frames_only, hasty=False):
    """hasty: once an obligation failed, spend at most 25 s more on the remaining paths (its replay comes first)"""
    E.reset()
    alg.reset()
    sym._da_cache.clear()
    sym._cnt[0] = 0
    E.pair_facts = []
    for k in list(alg.APP_RULES):
        if k != "Phi":
            del alg.APP_RULES[k]
    pkg = _state["pkg"]
    fn = find_h(_state["sym"], modname, name)
    res = {"obls": [], "paths": 0, "error": None, "called": [], "uses": [], "notes": []}
    t0 = time.time()
    called = set()
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit, 2)
    failed = []

    def on_fail(label, v):
        failed.append({"label": label, "ok": False, "how": v.how, "detail": v.detail, "conds": v.conds[-12:],
                       "hints": v.hints})
        if hasty and len(failed) == 1:
            left = signal.getitimer(signal.ITIMER_REAL)[0]
            signal.setitimer(signal.ITIMER_REAL, max(.1, min(left, 25)), 2)
    try:
        def body():
            E.facts = []
            E.pair_facts = []
            E.fcache = {}
            sym._cnt[0] = 0         # the same prefix of decisions names the same variables (and finds cached answers)
            E.bindings = {}
            E.witness = []
            E.starts = []
            E.tables = []
            E.summing = 0
            E.inv_obj = None
            E.while_fact = None
            E.known = []
            E.describe = None
            E.strict_tables = True
            E.any_iter = False
            B = SymB(pkg, _state["sym"])
            B.frames_only = frames_only
            B.on_fail = on_fail
            if frames_only:
                frames(B)
            try:
                fn(B, case)
            except (PathAbort, Unsupported):
                called.update(B.called)
                raise
            except tables.Cut:
                pass
            except Exception as ex:
                tb = traceback.extract_tb(ex.__traceback__)
                if os.environ.get("PYVC_TB"):
                    traceback.print_exc()
                where = next((f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(tb)
                              if "actuarialmath" in f.filename), "")
                if not frames_only:
                    B._record("no-exception", sym.Verdict(False, "exception",
                                                          f"{type(ex).__name__}: {ex} at {where}"))
            called.update(B.called)
            return B
        paths = E.explore(body)
        signal.setitimer(signal.ITIMER_REAL, 0)
        for fr, B in paths:
            res["paths"] += 1
            for label, v in B.obls:
                o = {"label": label, "ok": v.ok, "how": v.how}
                if not v.ok:
                    o["detail"] = v.detail
                    o["conds"] = v.conds[-12:]
                    o["hints"] = v.hints
                res["obls"].append(o)
    except Unsupported as ex:
        signal.setitimer(signal.ITIMER_REAL, 0)
        if "time limit" in str(ex) and failed:
            res["obls"] = failed
            res["paths"] = 1
        else:
            res["error"] = f"unsupported: {ex}"
        if os.environ.get("PYVC_TB"):
            traceback.print_exc()
    except RecursionError as ex:
        signal.setitimer(signal.ITIMER_REAL, 0)
        res["error"] = "unsupported: recursion depth"
    except Exception as ex:
        signal.setitimer(signal.ITIMER_REAL, 0)
        if os.environ.get("PYVC_TB"):
            traceback.print_exc()
        res["error"] = f"unsupported: engine: {type(ex).__name__}: {ex}"
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    res["called"] = sorted(called)
    res["uses"] = sorted(E.contract_uses)
    res["notes"] = sorted(E.notes)
    res["stats"] = dict(E.stats, wall=time.time() - t0)
    return res


def frames(B):
    """keep the frame obligations only"""
    eq, ensure = B.eq, B.ensure
    B.eq = lambda label, *a, **k: eq(label, *a, **k) if label.startswith("frame:") else None
    B.ensure = lambda label, *a, **k: ensure(label, *a, **k) if label.startswith("frame:") else None


def run_con(modname, name, case, seed, hints=None, frames_only=False):
    """one concrete evaluation of the contract on the real code; None if outside the precondition"""
    rng = random.Random(seed)
    fn = find_h(_state["con"], modname, name)
    B = ConB(_state["real"], _state["con"], rng, hints)
    if modname == "p27":            # (a solver asked about a neighbour may not converge, which would set the run aside)
        B.warm = False
    if frames_only:
        frames(B)
    watch_fsolve()
    _conv[0] = True
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            fn(B, case)
    except Skip:
        return None
    except (Unsupported, PathAbort):
        return None
    except Exception as ex:
        tb = traceback.extract_tb(ex.__traceback__)
        inrepo = [f for f in tb if "actuarialmath" in f.filename]
        where = f"{os.path.basename(inrepo[-1].filename)}:{inrepo[-1].name}" if inrepo else \
            f"{os.path.basename(tb[-1].filename)}:{tb[-1].lineno}"
        B.results.append(("no-exception", False, f"{type(ex).__name__}: {ex} in {where}", "a value"))
    if not _conv[0] and not frames_only:
        return None         # contract of the solver: assumed to converge
    return B


_conv = [True]


def watch_fsolve():
    """records whether scipy's root finder reported convergence"""
    import scipy.optimize
    real = scipy.optimize.fsolve
    if getattr(real, "watched", False):
        return

    def fsolve(func, x0, *a, full_output=False, **kw):
        out = real(func, x0, *a, full_output=True, **kw)
        if out[2] != 1 or not (abs(out[1]["fvec"]) < 1e-5).all():      # (it may report success where it started)
            _conv[0] = False
        return out if full_output else out[0]
    fsolve.watched = True
    scipy.optimize.fsolve = fsolve


def _lim(signum, frame):
    raise Skip()


def guarded_con(limit, *a, **k):
    signal.signal(signal.SIGALRM, _lim)
    signal.setitimer(signal.ITIMER_REAL, limit, 2)
    try:
        return run_con(*a, **k)
    except Skip:
        return None
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


OWN_FRAMES = {"p21"}        # modules whose property itself says that nothing is changed


def keeper(frames_only, modname):
    """frame obligations belong to P26 (and to modules that claim them), all others to their own property"""
    if frames_only:
        return lambda lab: lab.startswith("frame:")
    return lambda lab: modname in OWN_FRAMES or not lab.startswith("frame:")


def job(args):
    modname, name, idx, case, opts, tier, seed0, frames_only, only_con = args
    thorough = tier == "thorough"
    out = {"h": name, "case": case, "idx": idx, "mod": modname, "bounded": bool(opts.get("bounded"))}
    # replay of failed obligations, guided by the solver's model of the failing path
    fails = {}
    n_runs = n_eq = 0
    base = int(hashlib.sha256(f"{seed0}/{modname}/{name}/{idx}".encode()).hexdigest()[:12], 16)
    keep = keeper(frames_only, modname)

    def absorb(B, s, hints):
        nonlocal n_runs, n_eq
        if B is None:
            return
        n_runs += 1
        n_eq += B.n_eq
        for lab, ok, a, b in B.results:
            if not ok and keep(lab) and lab not in fails:
                fails[lab] = {"label": lab, "seed": s, "hints": hints, "vals": {k: v for k, v in B.vals.items()},
                              "actual": a, "expected": b}

    def bad_of(s):
        return [o for o in (s["obls"] if s and not s["error"] else []) if not o["ok"] and keep(o["label"])]

    def replays(bad):
        t0 = time.time()
        cap = 40 if thorough else 15
        for o in bad[:8]:
            for r in range(25):
                if time.time() - t0 > cap or fails:
                    return
                h = o.get("hints") if r < 18 else None
                if h and r >= 6:
                    # keep the integers of the model, redraw the reals
                    h = {k: v for k, v in h.items() if isinstance(v, (int, list)) or r < 10}
                absorb(guarded_con(10, modname, name, case, base + 7919 * r, h, frames_only), base + 7919 * r, h)

    tries = 0

    def sample():
        # sampling of the same contract on the real code under CPython
        nonlocal tries
        unsup = (out["sym"] is None) or out["sym"]["error"] or bad_of(out["sym"])
        want = opts.get("runs", 8) * (3 if unsup else 1) * (8 if thorough else 1)
        budget = (30 if thorough else (6 if unsup else 2.0)) * opts.get("slow", 1)
        t1 = time.time()
        got0 = n_runs
        while n_runs - got0 < want and tries < want * 12 and time.time() - t1 < budget:
            s = base + tries
            tries += 1
            absorb(guarded_con(20, modname, name, case, s, None, frames_only), s, None)

    t0 = time.time()
    out["sym"] = None
    if not (opts.get("bounded") or only_con):
        lim = 300 if thorough else opts.get("limit", 60)
        E.patience = 3 if thorough else 1
        out["sym"] = run_sym(modname, name, case, lim, frames_only, True)
        replays(bad_of(out["sym"]))
        if not fails and (bad_of(out["sym"]) or out["sym"]["error"]):
            sample()
        if not fails and (bad_of(out["sym"]) or "limit" in (out["sym"]["error"] or "")):
            # a slow machine must not decide: once more with a larger budget
            E.patience = 6
            again = run_sym(modname, name, case, 2 * lim, frames_only)
            E.patience = 1
            if not again["error"]:
                out["sym"] = again
                replays(bad_of(again))
    if tries == 0:
        sample()
    out["con"] = {"runs": n_runs, "evals": n_eq, "tries": tries, "wall": time.time() - t0}
    out["fails"] = list(fails.values())
    out["bound"] = opts.get("bound")
    return out


# ------------------------------------------------------------------------------------------------- property check
def known_findings():
    path = ROOT + "/known_findings.jsonl"
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("{"):
                out.append(json.loads(line))
    return out


def match_known(k, pid, j, f):
    if k.get("property") != pid or k.get("harness") != j["h"]:
        return False
    if "label" in k and k["label"] != f["label"]:
        return False
    if "case" in k and any(j["case"].get(a) != b for a, b in k["case"].items()):
        return False
    if "when" in k and f.get("vals") is not None:
        try:
            env = dict(f["vals"])
            env.update(actual=f["actual"], expected=f["expected"])
            return bool(eval(k["when"], {"__builtins__": {"float": float, "str": str, "int": int}}, env))
        except Exception:
            return False
    return True


def check(pid, modules, tier="quick", seed=1, frames_only=False, meta=None):
    t0 = time.time()
    init()
    jobs = []
    for m in modules:
        for j in jobs_of(m):
            o = j[4]
            if frames_only and o.get("noframe"):
                continue
            if o.get("thorough_only") and tier != "thorough":
                continue
            _state["sym"].use(m)
            jobs.append(j + (tier, seed, frames_only, False))
    n = int(os.environ.get("PYVC_PROCS", "0")) or min(8, os.cpu_count() or 8)
    results = []
    # expensive jobs first
    jobs.sort(key=lambda j: -j[4].get("weight", 1))
    with mp.get_context("fork").Pool(n, maxtasksperchild=40) as pool:
        for r in pool.imap_unordered(job, jobs, chunksize=1):
            results.append(r)
            if os.environ.get("PYVC_V"):
                s = r["sym"]
                print(r["h"], r["case"], "BOUNDED" if s is None else s["error"] or
                      f"{sum(o['ok'] for o in s['obls'])}/{len(s['obls'])} paths={s['paths']} {s['stats']['wall']:.1f}s",
                      "con", r["con"]["runs"], f"{r['con']['wall']:.1f}s",
                      "FAIL " + json.dumps(r["fails"][0], default=str)[:600] if r["fails"] else "", flush=True)
                if s and not s["error"] and os.environ["PYVC_V"] == "2":
                    for o in s["obls"]:
                        if not o["ok"]:
                            print("   UNDISCHARGED", o["label"], o["how"], o["detail"][:1200], "\n      ",
                                  [c[:120] for c in o["conds"]], o["hints"], flush=True)
    return finish(pid, results, tier, seed, t0, frames_only, meta or {})


def finish(pid, results, tier, seed, t0, frames_only, meta):
    results.sort(key=lambda r: (r["mod"], r["h"], r["idx"]))
    obl = dis = 0
    by = {}
    undis = []
    unsupported = []
    bounded = []
    called, uses, notes = set(), set(), set()
    queries = stime = 0
    runs = evals = 0
    vacuous = []
    sized = {}
    for r in results:
        runs += r["con"]["runs"]
        evals += r["con"]["evals"]
        s = r["sym"]
        if s is None:
            bounded.append({"harness": r["h"], "case": r["case"], "runs": r["con"]["runs"]})
            continue
        called |= set(s["called"])
        uses |= set(s["uses"])
        notes |= set(s["notes"])
        queries += s["stats"]["queries"]
        stime += s["stats"]["time"]
        if s["error"]:
            unsupported.append({"harness": r["h"], "case": r["case"], "reason": s["error"], "runs": r["con"]["runs"]})
            continue
        if s["paths"] == 0:
            vacuous.append({"harness": r["h"], "case": r["case"]})
        for o in s["obls"]:
            if not keeper(frames_only, r["mod"])(o["label"]):
                continue
            if r["bound"]:
                b = sized.setdefault(r["h"] + ": " + r["bound"], [0, 0])
                b[0] += 1
                b[1] += bool(o["ok"])
            else:
                obl += 1
            if o["ok"]:
                if not r["bound"]:
                    dis += 1
                    by[o["how"]] = by.get(o["how"], 0) + 1
            else:
                undis.append({"harness": r["h"], "case": r["case"], "label": o["label"], "why": o["how"],
                              "detail": o.get("detail", "")[:800], "path": o.get("conds"), "hints": o.get("hints")})
    # violations
    os.makedirs(ROOT + "/evidence/replays", exist_ok=True)
    known = known_findings()
    viol = []
    kf = set()
    for r in results:
        for f in r["fails"]:
            hit = next((k for k in known if match_known(k, pid, r, f)), None)
            if hit:
                kf.add(hit["what"])
                continue
            viol.append((r, f))
    printed = []
    seen = set()
    for r, f in viol:
        key = (r["h"], f["label"])
        if key in seen:
            continue
        seen.add(key)
        path = f"{ROOT}/evidence/replays/{pid}-{len(printed)}.json"
        obls = [o for o in (r["sym"]["obls"] if r["sym"] else []) if not o["ok"]]
        json.dump({"property": pid, "module": r["mod"], "harness": r["h"], "case": r["case"], "case_index": r["idx"],
                   "obligation": f["label"], "seed": f["seed"], "hints": f["hints"], "inputs": f["vals"],
                   "actual": f["actual"], "expected": f["expected"], "frames_only": frames_only,
                   "failed_obligations": obls[:3],
                   "rerun": f"/opt/venv/bin/python {ROOT}/check.py {pid} --replay {path}"},
                  open(path, "w"), indent=1, default=str)
        printed.append(path)
        print(f"failed obligation {r['h']} {json.dumps(r['case'])} [{f['label']}]: real code gives {f['actual'][:200]}, "
              f"contract requires {f['expected'][:200]} at {json.dumps(f['vals'], default=str)[:400]}")
    # obligations the verifier did not accept and no concrete input reproduces
    unproved = []
    for r in results:
        bad = [o for o in (r["sym"]["obls"] if r["sym"] and not r["sym"]["error"] else [])
               if not o["ok"] and keeper(frames_only, r["mod"])(o["label"])]
        if not bad or r["fails"]:
            continue
        for o in bad:
            if any(match_known(k, pid, r, dict(o, vals=None)) for k in known):
                continue
            if (r["h"], o["label"]) not in seen:
                seen.add((r["h"], o["label"]))
                path = f"{ROOT}/evidence/replays/{pid}-u{len(unproved)}.json"
                json.dump({"property": pid, "module": r["mod"], "harness": r["h"], "case": r["case"],
                           "case_index": r["idx"], "obligation": o["label"], "verifier_output": o,
                           "concrete_runs_that_agreed": r["con"]["runs"], "frames_only": frames_only,
                           "rerun": f"PYVC_V=2 /opt/venv/bin/python {ROOT}/check.py {pid}"},
                          open(path, "w"), indent=1, default=str)
                unproved.append(path)
                print(f"obligation not discharged: {r['h']} {json.dumps(r['case'])} [{o['label']}] {o['how']}: "
                      f"{o.get('detail', '')[:200]}")
    for w in sorted(kf):
        print(f"KNOWN-FINDING: property={pid} {w}")
    wall = time.time() - t0
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": meta.get("level", "proof"),
        "coverage": {
            "obligations": obl, "discharged": dis,
            "checker_cmd": f"/opt/venv/bin/python check.py {pid} (VERIF_TIER={tier})",
            "trusted_base": sorted(notes) + TRUSTED,
            "discharged_by": by,
            "solver": {"backend": "pyvc exact algebra (ring) + z3 " + _z3v(), "queries": queries,
                       "solver_seconds": round(stime, 2)},
            "functions_under_contract": sorted(called),
            "contracts_used_at_calls": sorted(uses),
            "undischarged": undis[:40],
            "not_reached_by_the_verifier_bounded_only": unsupported[:60],
            "bounded_stand_ins": bounded[:80],
            "bounded_size_obligations_not_counted_as_proved": {k: {"generated": a, "discharged": b}
                                                               for k, (a, b) in sized.items()},
            "concrete_contract_evaluations": {"runs": runs, "comparisons": evals,
                                              "rule": "same contract evaluated on the unmodified package by CPython at "
                                                      "seeded random inputs and at solver models of failing paths"},
            "harness_cases": len(results), "vacuous": vacuous,
            "sources": source_hashes(),
        },
        "assumptions": sorted(notes) + TRUSTED,
        "wall_s": round(wall, 2), "violations": len(printed) + len(unproved),
    }
    if ev["level"] != "proof":
        ev["coverage"]["evaluations"] = runs
        ev["coverage"]["explanation"] = meta.get("explanation", "contract evaluation")
    os.makedirs(ROOT + "/evidence", exist_ok=True)
    json.dump(ev, open(f"{ROOT}/evidence/{pid}.json", "w"), indent=1, default=str)
    print(f"{pid}: {dis}/{obl} obligations discharged over {len(results)} harness cases "
          f"({len(unsupported)} beyond the verifier, {len(bounded)} bounded), {runs} concrete contract runs, "
          f"{len(printed)} violations, {wall:.1f}s")
    for u in undis[:6]:
        print(f"  undischarged: {u['harness']} {json.dumps(u['case'])} [{u['label']}] {u['why']}")
    for u in unsupported[:6]:
        print(f"  beyond the verifier: {u['harness']} {json.dumps(u['case'])}: {u['reason'][:150]}")
    for p in printed:
        print(f"VIOLATION property={pid} replay={p}")
    for p in unproved:
        print(f"VIOLATION property={pid} replay={p} no-failing-input-found")
    if printed or unproved:
        return 1
    if (obl == 0 and not meta.get("allow_zero")) or runs == 0:
        # nothing was generated: the contracts no longer attach to the code
        path = f"{ROOT}/evidence/replays/{pid}-zero.json"
        json.dump({"property": pid, "obligation": "non-vacuity: at least one obligation is generated",
                   "unsupported": unsupported[:10]}, open(path, "w"), indent=1, default=str)
        if runs == 0:
            print(f"VIOLATION property={pid} replay={path} no-failing-input-found")
            return 1
    return 0


def _z3v():
    return sym.z3.get_version_string()


def source_hashes():
    return {os.path.basename(p): hashlib.sha256(t.encode()).hexdigest()[:16]
            for p, t in _state["pkg"].sources.items()}


TRUSTED = [
    "CPython executes the transformed source with the semantics of the original (transforms T1-T9 in pyvc/loader.py)",
    "machine floats treated as exact reals; integers are unbounded",
    "pyvc algebra kernel (alg.py) and z3",
    "partial correctness: termination is only observed in the concrete runs",
]


def replay(path):
    init()
    d = json.load(open(path))
    case = d["case"]
    B = run_con(d["module"], d["harness"], case, d["seed"], d["hints"], d.get("frames_only", False))
    if B is None:
        print("outside the precondition now")
        return 0
    bad = [r for r in B.results if not r[1] and r[0] == d["obligation"]]
    print(json.dumps({"inputs": B.vals, "results": [(a, ok, x, y) for a, ok, x, y in B.results]}, indent=1, default=str))
    return 1 if bad else 0
