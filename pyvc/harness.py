"""One harness text, two readings.

A harness builds a receiver and arguments through a builder `B`, calls the real method and states the contract:

  SymB   arguments are symbolic, the receiver is built from the transformed real source, callees reached by dynamic
         dispatch are replaced by their contracts; every `eq`/`ensure` is a proof obligation on every path.
  ConB   arguments are concrete (random, or taken from the solver's model of a failing path), the receiver is the
         real installed package with nothing replaced; every `eq`/`ensure` is evaluated numerically.
"""
import inspect
import math
import random
import sys
import types
from fractions import Fraction as F
from . import alg
from . import sym
from . import tables
from .sym import E, Num, ZBool, Unsupported, PathAbort, rat, wrap, to_f, f_and, f_cmp, f_show, fresh, numlike


class Havoc:
    """the contract leaves the result unspecified (e.g. value for a life past the limiting age)"""
    def __repr__(self):
        return "<unspecified>"


HAVOC = Havoc()


class Skip(BaseException):
    """concrete valuation outside the precondition"""


class Contract:
    def __init__(self, name, spec, modifies=(), pre=None):
        self.name, self.spec, self.modifies, self.pre = name, spec, modifies, pre


class Binding:
    """attached to a symbolic receiver: its ghost model and the contracts of its methods"""

    def __init__(self, obj, model, contracts):
        self.obj, self.model, self.contracts = obj, model, contracts

    def call_contract(self, obj, wrapped, bound):
        c = self.contracts[wrapped.name]
        sig = inspect.signature(wrapped.raw)

        def call(*a, **k):
            # TypeError if the override lacks a parameter
            ba = sig.bind(*a, **k) if wrapped.static else sig.bind(obj, *a, **k)
            ba.apply_defaults()
            args = dict(list(ba.arguments.items())[0 if wrapped.static else 1:])
            if "kwargs" in args:
                args.update(args.pop("kwargs"))
            E.contract_uses.add(f"{wrapped.owner.__name__}.{wrapped.name}")
            spec_params = inspect.signature(c.spec).parameters
            for k2 in list(args):
                if k2 not in spec_params and not any(p.kind == p.VAR_KEYWORD for p in spec_params.values()):
                    raise Unsupported(f"{wrapped.name} takes an argument {k2} its contract does not describe")
            r = c.spec(self.model, **args)
            if r is HAVOC:
                return fresh("unspecified")
            return r
        return call


# ------------------------------------------------------------------------------------------------- frames
def snapshot(o, depth=0, seen=None):
    seen = {} if seen is None else seen
    if isinstance(o, Num):
        return ("n", o.r.key)
    if o is None or isinstance(o, (int, float, str, bool, F, bytes)):
        if isinstance(o, float) and o != o:
            return ("nan",)
        return (type(o).__name__ in ("int", "float", "bool") and "n0" or type(o).__name__, o)
    if isinstance(o, ZBool):
        return ("b", o.f)
    if callable(o) and not hasattr(o, "__dict__") or isinstance(o, (types.FunctionType, types.MethodType, type)):
        return ("fn", id(o) if not isinstance(o, types.MethodType) else (id(o.__func__), id(o.__self__)))
    if id(o) in seen:
        return ("ref", seen[id(o)])
    seen[id(o)] = len(seen)
    if isinstance(o, dict) and hasattr(o, "__snap__"):
        return ("g", o.__snap__())
    if isinstance(o, dict):
        return ("d", tuple((snapshot(k, depth + 1, seen), snapshot(v, depth + 1, seen)) for k, v in o.items()))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, tuple(snapshot(v, depth + 1, seen) for v in o))
    if isinstance(o, (set, frozenset)):
        return ("s", tuple(sorted(repr(snapshot(v, depth + 1, seen)) for v in o)))
    if hasattr(o, "__snap__"):
        return ("g", o.__snap__())
    if type(o).__module__.startswith("numpy"):
        return ("np", repr(o))
    if type(o).__module__.startswith("pandas"):
        return ("pd", o.to_string())
    if hasattr(o, "__dict__"):
        return ("o", type(o).__name__, tuple(sorted((k, snapshot(v, depth + 1, seen))
                                                     for k, v in vars(o).items() if k not in ("_vc_",))))
    return ("?", id(o))


def snap_diff(a, b, path=""):
    """attribute names that differ (for display)"""
    if a == b:
        return []
    if a and b and a[0] == "o" and b[0] == "o":
        da, db = dict(a[2]), dict(b[2])
        out = []
        for k in sorted(set(da) | set(db)):
            if da.get(k) != db.get(k):
                out += snap_diff(da.get(k, ()), db.get(k, ()), path + "." + k) or [path + "." + k]
        return out
    return [path or "value"]


_shared = {}


def shared_state(pkg):
    """data held by the package itself: module variables, class attributes, changeable defaults of parameters"""
    key = id(pkg)
    if key not in _shared:
        mods = list(getattr(pkg, "mods", {}).values()) or \
            [m for n, m in sorted(sys.modules.items()) if n.split(".")[0] == "actuarialmath" and m is not None]
        names = {m.__name__ for m in mods}
        classes = {c for m in mods for c in vars(m).values() if isinstance(c, type) and c.__module__ in names}
        holders = []
        for c in sorted(classes, key=lambda c: c.__module__ + c.__qualname__):
            holders.append((c.__qualname__, c))
        for m in mods:
            holders.append((m.__name__, m))
        funs = []
        for label, h in holders:
            for n, f in sorted(vars(h).items(), key=lambda i: i[0]):
                f = getattr(f, "raw", None) or getattr(f, "__func__", f)
                if isinstance(f, types.FunctionType) and getattr(f, "__module__", None) in names and \
                        any(isinstance(d, (dict, list, set)) or hasattr(d, "__dict__") and not callable(d)
                            for d in (f.__defaults__ or ()) + tuple((f.__kwdefaults__ or {}).values())):
                    funs.append((label + "." + n, f))
        _shared[key] = (holders, funs)
    holders, funs = _shared[key]
    out = []
    for label, h in holders:
        for n, v in vars(h).items():
            if n[:2] != "__" and n != "_wrapped" and (v is None or isinstance(v, (dict, list, set, tuple, int, float, str, Num))):
                out.append((f"{label}.{n}", snapshot(v)))
    for label, f in funs:
        out.append((label + " defaults", snapshot([f.__defaults__, f.__kwdefaults__])))
    return ("o", "package", tuple(sorted(out, key=lambda i: i[0])))


# ------------------------------------------------------------------------------------------------- symbolic builder
class SymB:
    sym = True

    def __init__(self, pkg, specs):
        self.pkg = pkg
        self.specs = specs          # transformed spec namespace
        self.obls = []
        self.frames = []
        self.called = set()
        self.hintvars = {}

    def module(self, name):
        return self.pkg.load("actuarialmath." + name)

    # values
    def int(self, name, lo=None, hi=None):
        v = Num(alg.var(name, True))
        self._rng(v, lo, hi)
        return v

    def real(self, name, lo=None, hi=None, open_lo=False, open_hi=False, pick=None, top=None):
        """an arbitrary number between lo and hi (`top` only limits what concrete runs draw)"""
        v = Num(alg.var(name, False))
        if lo is not None:
            E.assume(to_f(v > lo if open_lo else v >= lo))
        if hi is not None:
            E.assume(to_f(v < hi if open_hi else v <= hi))
        return v

    def _rng(self, v, lo, hi):
        if lo is not None:
            E.assume(to_f(v >= lo))
        if hi is not None:
            E.assume(to_f(v <= hi))

    def assume(self, c):
        E.assume(to_f(c))

    def given(self, c):
        E.assume(to_f(c))

    def ghost(self, c):
        """a fact of the ghost model (true by its definition, so never tested for consistency)"""
        f = to_f(c)
        if f != sym.T and f not in E.frames[-1].conds:
            E.frames[-1].conds.append(f)

    def compare(self, label, w, w0, c, lo, hi, discrete):
        """lemma (monotonicity of sums and integrals): prove w(k) >= w0 and c(k) >= 0 at a generic position, then use
        sum/integral of w*c over [lo, hi) >= w0 * that of c"""
        k = fresh("k" if discrete else "y", discrete)
        fr = E.frames[-1]
        n = len(fr.conds)
        fr.conds += [f_cmp("le", alg.sub(rat(lo), rat(k))), f_cmp("lt", alg.sub(rat(k), rat(hi)))]
        dw, cv = w(k) - w0, c(k)
        ok = True
        for what, x in (("weight", dw), ("term", cv)):
            g = to_f(x >= 0)
            good = E.prove(g) or E.check(sym.f_not(g), timeout=3000) == "unsat"
            ok = ok and good
            self._record(label + " (" + what + ")", sym.Verdict(good, "z3" if good else "undecided", repr(x)[:300]))
        if len(fr.conds) != n + 2:
            raise Unsupported("branching in a lemma")
        del fr.conds[n:]
        if ok:
            fn = alg.summation if discrete else alg.integral
            total = alg.close_forms(fn(rat(dw * cv), sym.vidx(k), rat(lo), rat(hi)), E.known_nonzero)
            E.assume(to_f(wrap(total) >= 0))

    def ftc(self, label, G, g, lo, hi):
        """lemma (fundamental theorem): prove G' = g at a generic point of (lo, hi); the integral of g is G(hi) - G(lo)"""
        y = fresh("y")
        fr = E.frames[-1]
        n, forks = len(fr.conds), len(fr.forks)
        fr.conds += [f_cmp("lt", alg.sub(rat(lo), rat(y))), f_cmp("lt", alg.sub(rat(y), rat(hi)))]
        v = sym.prove_eq(sym.s_derivative(G, y), g(y))
        self._record(label + " (antiderivative)", v)
        if len(fr.forks) != forks:
            raise Unsupported("branching in a lemma")
        del fr.conds[n:]
        return G(hi) - G(lo)

    def fun(self, name, nargs=2, lo=None, conc=None):
        def f(*a):
            if len(a) != nargs:
                raise TypeError(f"{name} called with {len(a)} arguments")
            return wrap(alg.app(name, *[rat(x) for x in a], pos=lo == "pos"))
        if lo is not None:
            def fact(atom):
                if atom.kind == "App" and atom.data[0] == name:
                    return [f_cmp("lt" if lo == "pos" else "le", alg.neg(alg.from_atom(atom)))]
                return []
            E.facts.append(fact)
        return f

    def lives(self, om, name="L", extinct=True, light=False):
        omr = rat(om)

        def rule(*args):
            if alg.is_zero(alg.sub(alg.add(args[0], args[1]), omr)):
                return alg.ZERO
            return None
        if extinct:
            alg.APP_RULES[name] = rule

        def fact(atom):
            if atom.kind == "App" and atom.data[0] == "D1:" + name:
                return [f_cmp("le", alg.from_atom(atom))]
            if atom.kind != "App" or atom.data[0] != name:
                return []
            a = alg.from_atom(atom)
            y = alg.sub(alg.add(atom.data[1][0], atom.data[1][1]), omr)
            out = [f_cmp("le", alg.neg(a))]
            alive = f_cmp("lt", y) if extinct else sym.T
            out.append(sym.f_or([sym.f_not(alive), f_cmp("lt", alg.neg(a))]))
            if extinct:
                out.append(sym.f_or([alive, f_cmp("eq", a)]))
            return out

        def pair(a, b):
            if a.data[0] == name and b.data[0] == name and a.data[1][0] == b.data[1][0]:
                le = f_cmp("le", alg.sub(a.data[1][1], b.data[1][1]))
                return [sym.f_or([sym.f_not(le), f_cmp("le", alg.sub(alg.from_atom(b), alg.from_atom(a)))])]
            return []
        E.facts.append(fact)
        E.pair_facts = getattr(E, "pair_facts", []) + [pair]

        def L(x, s):
            r = rule(rat(x), rat(s)) if extinct else None
            return wrap(r) if r is not None else wrap(alg.app(name, rat(x), rat(s)))

        def dL(x, s):
            return wrap(alg.app("D1:" + name, rat(x), rat(s)))
        L.d = dL
        return L

    def smooth(self, name, nargs=2):
        """differentiable unknown function; .d is its derivative in the last argument"""
        f = self.fun(name, nargs)
        f.d = lambda *a: wrap(alg.app(f"D{nargs - 1}:" + name, *[rat(x) for x in a]))
        return f

    def table(self, name, lo, hi, value=None, hook=None, density=.5, total=False, empty=False):
        """a dict with arbitrary cells keyed lo..hi; hook(key, value) sees every store before it happens"""
        return tables.SymTable(name, lo, hi, value, hook, total, empty)

    def rows(self, name, xlo, xhi, smax, value, hook=None, nones=False, density=.5, total=False):
        return tables.SymRows(name, xlo, xhi, smax, value, hook, nones, total)

    def invariant_for(self, obj, while_fact=None, why=""):
        """loops are cut at the table invariant; while_fact() is assumed after a while loop that was entered"""
        E.inv_obj = obj
        E.strict_tables = False
        if while_fact is not None:
            E.note("assumed after a while loop that was entered: " + why)
            E.while_fact = while_fact

    def describe_known(self, f):
        """f(thunks of the optional answers a failing path relies on) goes with the replay hints"""
        E.describe = f

    def linear_form(self, v):
        """{variable: coefficient} of a linear expression over named variables ("" for the constant), a plain value as it is, or None"""
        if isinstance(v, (bool, int, float, str)):
            return v
        if not isinstance(v, Num):
            return None
        r = rat(v)
        if r.den:
            return None
        out = {}
        for mono, c in r.num.items():
            if not mono:
                out[""] = float(c)
            elif len(mono) == 1 and mono[0][1] == 1 and alg.atom_by(mono[0][0]).kind == "Var":
                out[alg.atom_by(mono[0][0]).data[0]] = float(c)
            else:
                return None
        return out

    def any_iteration(self):
        """loops with independent iterations are cut at the invariant `true`: one arbitrary iteration stands for all"""
        E.any_iter = True

    def optional(self, thunk):
        """contract result: None, or this value"""
        return sym.Maybe(thunk)

    def cumulative(self, name, step):
        """ghost C with C(n+1) = C(n) + step(n) at every integer n, and its limit C.total"""
        def rule(n):
            if n.den:
                return None
            c = n.num.get((), 0)
            c = c.numerator // c.denominator if c else 0
            if not c or abs(c) > 60:
                return None
            n0 = alg.sub(n, alg.const(c))
            out = alg.app(name, n0)
            for j in (range(c) if c > 0 else range(c, 0)):
                one = rat(step(wrap(alg.add(n0, alg.const(j)))))
                out = alg.add(out, one) if c > 0 else alg.sub(out, one)
            return out
        alg.APP_RULES[name] = rule

        def C(n):
            r = rule(rat(n))
            return wrap(r if r is not None else alg.app(name, rat(n)))
        C.total = wrap(alg.app(name + ":total"))
        return C

    def attempt(self, fn, ok):
        """the answer, or None if there is none (an exception that `ok` accepts is no answer)"""
        try:
            return fn()
        except Exception as ex:
            if not ok(ex):
                raise
            return None

    def none_or(self, label, a, b):
        """obligation: a is None, or equals b() """
        if isinstance(a, sym.Maybe):
            if a.state is None:
                E.known.append(a.orig)
            a = a.value() if a.state is not True else None
        if a is None:
            return
        self._record(label, self._eq(a, b()))

    def define(self, name, fn):
        """interpretation of a ghost function by rewriting"""
        alg.APP_RULES[name] = fn

    def witness(self, x):
        E.witness = [x]

    def starts(self):
        """the points the root finder was started from"""
        return E.starts

    def bind(self, obj, model, contracts, skip=()):
        b = Binding(obj, model, {k: v for k, v in contracts.items() if k not in skip})
        E.bindings[id(obj)] = b
        self.frames.append(obj)
        return b

    # execution
    def call(self, obj, meth, *a, modifies=(), watch=(), **k):
        from .loader import find
        w = find(type(obj) if not isinstance(obj, type) else obj, meth)
        if w is None:
            raise AttributeError(f"{type(obj).__name__} has no {meth}")
        raw = w.raw if hasattr(w, "raw") else (w.__func__ if isinstance(w, staticmethod) else w)
        owner = w.owner.__name__ if hasattr(w, "owner") else type(obj).__name__
        self.called.add(f"{owner}.{meth}")
        before = self._snap(obj, a, k, watch)
        if isinstance(w, staticmethod) or getattr(w, "static", False) or isinstance(obj, type):
            r = raw(*a, **k)
        else:
            r = raw(obj, *a, **k)
        after = self._snap(obj, a, k, watch)
        self._frame(meth, before, after, modifies)
        return r

    def unchanged(self, label, thunk, *objs):
        """obligation: running thunk leaves these objects as they were"""
        before = self._snap(objs, (), {}, ())
        r = thunk()
        self._frame(label, before, self._snap(objs, (), {}, ()), ())
        return r

    def _snap(self, obj, a, k, watch):
        return {"self": snapshot(obj) if not isinstance(obj, type) else ("cls",),
                "args": snapshot(list(a) + list(k.values())),
                "package": shared_state(self.pkg),
                **{f"other{i}": snapshot(w) for i, w in enumerate(watch)}}

    def _frame(self, meth, before, after, modifies):
        for key in before:
            if key == "self" and "self" in modifies:
                continue
            d = snap_diff(before[key], after[key], key)
            d = [x for x in d if not any(x.startswith(m) for m in modifies)]
            self._record(f"frame:{meth}:{key}", sym.Verdict(not d, "snapshot", ",".join(d[:5])))

    def _record(self, label, v):
        if not v.ok and E.summing:
            from .tables import GivenUp
            raise GivenUp()
        self.obls.append((label, v))
        if not v.ok:
            v.conds = [f_show(c) for c in E.conds()]
            v.hints = E.model()
            if E.known and E.describe is not None:
                v.hints = dict(v.hints or {}, **{"#known": E.describe(E.known)})
            if getattr(self, "on_fail", None):
                self.on_fail(label, v)

    # obligations
    def eq(self, label, a, b, tol=None):
        if b is HAVOC:
            return
        self._record(label, self._eq(a, b))

    def _eq(self, a, b):
        if b is HAVOC:
            return sym.Verdict(True, "unspecified")
        if isinstance(b, (list, tuple)):
            if not isinstance(a, (list, tuple)) or len(a) != len(b):
                return sym.Verdict(False, "shape", f"{a!r} vs {b!r}")
            for x, y in zip(a, b):
                v = self._eq(x, y)
                if not v.ok:
                    return v
            return sym.Verdict(True, "structural")
        if isinstance(b, dict):
            if not isinstance(a, dict) or set(a) != set(b):
                return sym.Verdict(False, "shape", f"{a!r} vs {b!r}")
            for x in b:
                v = self._eq(a[x], b[x])
                if not v.ok:
                    return v
            return sym.Verdict(True, "structural")
        if isinstance(b, str) or b is None or a is None or isinstance(a, str):
            return sym.Verdict(a is b or a == b, "structural", f"{a!r} vs {b!r}")
        if isinstance(a, ZBool) or isinstance(b, ZBool):
            return sym.Verdict(bool(a) == bool(b), "bool")
        if not numlike(a) or not numlike(b):
            return sym.Verdict(a is b, "identity", f"{a!r} vs {b!r}")
        return sym.prove_eq(a, b)

    def ensure(self, label, c):
        f = to_f(c)
        if E.prove(f):
            self._record(label, sym.Verdict(True, "z3"))
        elif E.check(sym.f_not(f), timeout=2500) == "unsat":
            self._record(label, sym.Verdict(True, "z3"))
        else:
            self._record(label, sym.Verdict(False, "undecided", f_show(f)))

    def raises(self, label, fn):
        try:
            fn()
        except Exception as ex:
            self._record(label, sym.Verdict(True, "raises " + type(ex).__name__))
            return
        self._record(label, sym.Verdict(False, "no exception"))


# ------------------------------------------------------------------------------------------------- concrete builder
class Mismatch(Exception):
    pass


class ConLives:
    """concrete lives with a select effect: L(x,s) strictly decreasing in s, zero at and after omega"""

    def __init__(self, om, rng, smooth=False, extinct=True, light=False):
        self.om = om
        self.light = rng.choice([None, None, 1e-3, 3e-5, 4e-6]) if light else None     # hardly anyone dies early
        self.a = rng.choice([1.0, 1.0, 1.3, 2.0])
        self.b = rng.choice([0.0, 0.01, 0.05]) * 40.0 / max(om, 1)
        self.c = rng.choice([0.2, 0.7])
        self.k = rng.choice([0.3, 1.0])
        self.scale = rng.choice([1.0, 100.0, 3.0])
        self.extinct = extinct

    def __call__(self, x, s):
        y = x + s
        if self.extinct and y >= self.om:
            return 0.0
        if self.light:
            return self.scale * math.exp(-self.light * (y + s / 4))
        base = (1 - y / self.om) ** self.a * math.exp(-self.b * y) if self.extinct else math.exp(-(self.b + .02) * y)
        return self.scale * base * (1 + self.c / (1 + x / 50) * math.exp(-self.k * s))

    def d(self, x, s):
        y = x + s
        if self.extinct and y >= self.om:
            return 0.0
        if self.light:
            return -1.25 * self.light * self(x, s)
        g = 1 + self.c / (1 + x / 50) * math.exp(-self.k * s)
        dg = -self.k * (g - 1)
        if self.extinct:
            p = (1 - y / self.om)
            e = math.exp(-self.b * y)
            base = p ** self.a * e
            db = -self.a / self.om * p ** (self.a - 1) * e - self.b * base
        else:
            base = math.exp(-(self.b + .02) * y)
            db = -(self.b + .02) * base
        return self.scale * (db * g + base * dg)


class Cumulative:
    """C(n) = sum of step over -8..n-1"""
    def __init__(self, step):
        self.step, self.vals, self._total = step, [0.0], None

    def __call__(self, n):
        n = int(n) + 8
        assert n >= 0
        while len(self.vals) <= n:
            self.vals.append(self.vals[-1] + self.step(len(self.vals) - 9))
        return self.vals[n]

    @property
    def total(self):
        return self(400)


class ConB:
    sym = False

    def __init__(self, pkg, specs, rng, hints=None, given=None):
        self.pkg, self.specs, self.rng = pkg, specs, rng
        self.hints = hints or {}
        self.vals = {}
        self.results = []
        self.called = set()
        self.n_eq = 0
        self.warmup = random.Random(hash(rng.getstate()[1][:4]))
        self.warm = self.warmup.random() < .5

    def module(self, name):
        import importlib
        return importlib.import_module("actuarialmath." + name)

    def _draw(self, name, f):
        v = f()
        self.vals[name] = v
        return v

    def int(self, name, lo=None, hi=None):
        if name in self.hints:
            v = int(self.hints[name])
            if (lo is not None and v < lo) or v > max(400, hi or 0):        # (hi only limits what is drawn)
                raise Skip()
            self.vals[name] = v
            return v
        lo2 = int(lo) if lo is not None else 0
        hi2 = int(hi) if hi is not None else lo2 + 12
        if hi2 < lo2:
            raise Skip()
        r = self.rng
        c = r.random()
        if c < .15:
            v = lo2
        elif c < .25:
            v = hi2
        elif c < .6:
            v = r.randint(lo2, min(hi2, lo2 + 4))
        else:
            v = r.randint(lo2, hi2)
        self.vals[name] = v
        return v

    def real(self, name, lo=None, hi=None, open_lo=False, open_hi=False, pick=None, top=None):
        if name in self.hints and abs(self.hints[name]) < 1e6:
            v = float(self.hints[name])
            if (lo is not None and (v < lo or (open_lo and v <= lo))) or \
                    (hi is not None and (v > hi or (open_hi and v >= hi))):
                raise Skip()
            self.vals[name] = v
            return v
        r = self.rng
        if pick:
            v = r.choice(pick)
        else:
            a = lo if lo is not None else -2.0
            b = top if top is not None else hi if hi is not None else a + 3.0
            v = r.choice([a + (b - a) * r.random(), round(a + (b - a) * r.random(), 2),
                          a if not open_lo else (a + b) / 2, b if not open_hi or top is not None else (a + b) / 2])
        v = float(v)
        if not pick:
            v = min(max(v, a), b)       # (rounding)
        if open_lo and v == lo or open_hi and v == hi:
            v = (a + b) / 2
        self.vals[name] = v
        return v

    def assume(self, c):
        if not c:
            raise Skip()

    given = assume

    def ghost(self, c):
        pass

    def compare(self, label, w, w0, c, lo, hi, discrete):
        pass

    def ftc(self, label, G, g, lo, hi):
        import scipy.integrate
        return 0.0 if lo == hi else scipy.integrate.quad(g, lo, hi, limit=200)[0]

    def fun(self, name, nargs=2, lo=None, conc=None):
        w = [self.rng.uniform(.3, 1.7) for _ in range(nargs + 1)]
        if conc is not None:
            return conc(self.rng)
        if lo is not None:
            return lambda *a: abs(w[0]) + sum(0.05 * wi * abs(ai) for wi, ai in zip(w[1:], a))
        return lambda *a: w[0] + sum(0.07 * wi * ai for wi, ai in zip(w[1:], a))

    def smooth(self, name, nargs=2):
        r = self.rng
        c = [r.uniform(.001, .02) for _ in range(nargs)]
        q = r.uniform(.0001, .002)

        def f(*a):
            return c[-1] * a[-1] + q * a[-1] ** 2 + sum(ci * ai * (1 + a[-1]) / 10 for ci, ai in zip(c, a[:-1]))
        f.d = lambda *a: c[-1] + 2 * q * a[-1] + sum(ci * ai / 10 for ci, ai in zip(c, a[:-1]))
        return f

    def lives(self, om, name="L", extinct=True, light=False):
        return ConLives(om, self.rng, extinct=extinct, light=light)

    def define(self, name, fn):
        pass

    def any_iteration(self):
        pass

    def cumulative(self, name, step):
        return Cumulative(step)

    def attempt(self, fn, ok):
        try:
            return fn()
        except Exception as ex:
            if not ok(ex):
                raise
            return None

    def none_or(self, label, a, b):
        if a is not None:
            self.eq(label, a, b())

    def table(self, name, lo, hi, value=None, hook=None, density=.5, total=False, empty=False):
        r = self.rng
        w = [r.uniform(-2, 5) for _ in range(40)]
        value = value or (lambda k: w[k % 40])
        if empty:
            return tables.ConTable({}, hook)
        d = r.choice([density, density, .2, .9])
        return tables.ConTable({k: value(k) for k in range(int(lo), int(hi) + 1) if total or r.random() < d}, hook)

    def rows(self, name, xlo, xhi, smax, value, hook=None, nones=False, density=.5, total=False):
        r = self.rng
        d = 2 if total else r.choice([density, density, .2, .9])
        cells = {}
        for x in range(int(xlo), int(xhi) + 1):
            if r.random() < .2 and d < .8:
                continue
            row = {}
            for s in range(int(smax) + 1):
                if r.random() < d:
                    row[s] = value(x, s)
                elif nones and r.random() < .5:
                    row[s] = None
            cells[x] = row
        return tables.ConRows(cells, hook)

    def invariant_for(self, obj, while_fact=None, why=""):
        pass

    def witness(self, x):
        pass

    def starts(self):
        return []

    def bind(self, obj, model, contracts, skip=()):
        return None

    def call(self, obj, meth, *a, modifies=(), watch=(), **k):
        f = getattr(obj, meth)
        self.called.add(meth)
        before = self._snap(obj, a, k, watch)
        if self.warm and not modifies:
            self._neighbour(f, a, k)
        r = f(*a, **k)
        self._frame(meth, before, self._snap(obj, a, k, watch), modifies)
        return r

    def _neighbour(self, f, a, k):
        """first ask the same for one other argument: a query is not to change the answer to another"""
        a, k, r = list(a), dict(k), self.warmup
        at = [(a, i) for i, v in enumerate(a) if type(v) in (int, float)]
        at += [(k, n) for n, v in k.items() if type(v) in (int, float)]
        if not at:
            return
        c, i = r.choice(at)
        v = c[i]
        c[i] = v + 1 if type(v) is int else v * 1.01 + r.choice([.004, .02, .3])
        try:
            f(*a, **k)
        except Exception:
            pass

    _snap = SymB._snap
    unchanged = SymB.unchanged

    def _frame(self, meth, before, after, modifies):
        for key in before:
            if key == "self" and "self" in modifies:
                continue
            d = snap_diff(before[key], after[key], key)
            d = [x for x in d if not any(x.startswith(m) for m in modifies)]
            self.n_eq += 1
            self.results.append((f"frame:{meth}:{key}", not d, ",".join(d[:5]), "unchanged"))

    def eq(self, label, a, b, tol=None):
        if b is HAVOC:
            return
        ok = self._eq(a, b, tol)
        self.n_eq += 1
        self.results.append((label, ok, _show(a), _show(b)))

    def _eq(self, a, b, tol):
        if b is HAVOC:
            return True
        if isinstance(b, (list, tuple)):
            return isinstance(a, (list, tuple)) and len(a) == len(b) and all(
                self._eq(x, y, tol) for x, y in zip(a, b))
        if isinstance(b, dict):
            return isinstance(a, dict) and set(a) == set(b) and all(self._eq(a[x], b[x], tol) for x in b)
        if b is None or isinstance(b, str) or a is None or isinstance(a, str):
            return a is b or a == b
        try:
            a, b = float(a), float(b)
        except (TypeError, ValueError):
            return a is b
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        if math.isinf(a) or math.isinf(b):
            return a == b
        t = tol or 1e-6
        return abs(a - b) <= t * max(1.0 if tol is None else 1e-3, abs(a), abs(b), getattr(self, "scale", 0.0)) \
            if tol is not None else abs(a - b) <= 1e-7 + 2e-6 * max(abs(a), abs(b), getattr(self, "scale", 0.0))

    def ensure(self, label, c):
        self.n_eq += 1
        self.results.append((label, bool(c), str(bool(c)), "True"))

    def raises(self, label, fn):
        self.n_eq += 1
        try:
            r = fn()
        except Exception as ex:
            self.results.append((label, True, type(ex).__name__, "exception"))
            return
        self.results.append((label, False, _show(r), "an exception"))


def _show(x):
    try:
        return repr(float(x))
    except Exception:
        return repr(x)[:300]
