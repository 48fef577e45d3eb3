"""Tables (dicts keyed by age or duration) of arbitrary size and content, and the invariant rule for loops over them.

A table is a partial function: presence of key k is an uninterpreted predicate, its value either an uninterpreted
function of k or the value the ghost model implies.  Loops of symbolic length are cut at an invariant: "cells present
before are still present with the same value; a present cell has the value above".  The invariant is preserved because
every store made by the code is an obligation (the cell was empty, the value is the implied one: the harness's hook)."""
from . import alg, sym
from .sym import E, Num, ZBool, Unsupported, rat, wrap, to_f, f_and, f_or, f_not, f_cmp, fresh, mkbool


class Cut(BaseException):
    """end of an arbitrary iteration of a loop cut at its invariant"""


class GivenUp(BaseException):
    """a loop was being summed up, but it changes a table (or its body fails at an arbitrary index)"""


def untouched():
    if E.summing:
        raise GivenUp()


class Poison:
    """a variable assigned in a loop cut at its invariant"""

    def _no(self, *a, **k):
        raise Unsupported("a loop variable is used after its loop was cut")
    __bool__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __lt__ = __le__ = __gt__ = __ge__ = _no
    __eq__ = __ne__ = __getitem__ = __call__ = __iter__ = __neg__ = __truediv__ = _no
    __hash__ = None


POISON = Poison()


def choose():
    return E.decide(f_cmp("eq", rat(fresh("choice", True))))


def havoc(names, vals, unbound):
    out = []
    for n, v in zip(names, vals):
        if isinstance(v, bool) or isinstance(v, ZBool) or not sym.numlike(v):
            out.append(POISON)
        else:
            out.append(fresh("inv_" + n, isinstance(v, int) or alg.is_int(rat(v))))
    return out


def inv_for(body, it, get, sett, names, unbound):
    from .harness import snapshot
    lo, hi = sym.lift(it.lo), sym.lift(it.hi)
    vals = havoc(names, get(), unbound)
    for t in E.tables:
        t.havoc()
    sett(vals)
    if len(E.frames) > 2:
        raise Unsupported("nested loop cut")
    if choose():
        k = fresh("k", True)
        E.assume(f_and([to_f(lo <= k), to_f(k < hi)]))
        before = snapshot(E.inv_obj)
        body(k)
        if snapshot(E.inv_obj) != before:
            raise Unsupported("a loop cut at its invariant changes other state")
        raise Cut()


def inv_while(get, sett, names):
    """state at the head of an arbitrary iteration (or at the exit) of a while loop"""
    vals = havoc(names, get(), None)
    for t in E.tables:
        t.havoc()
    sett(vals)


def wants_fact():
    return E.while_fact is not None


def ended_while(first):
    """after a while loop whose condition held when it was reached: its body ran at least once"""
    if E.while_fact is not None and first:
        E.assume(to_f(E.while_fact()))


def cut():
    raise Cut()


class SymTable(dict):
    """dict[int, number] with arbitrary cells; `value(k)` is what a present cell holds"""

    def __init__(self, name, lo, hi, value=None, hook=None, total=False, empty=False):
        super().__init__()
        self.name, self.lo, self.hi = name, lo, hi
        self.valf = value or (lambda k: wrap(alg.app("val:" + name, rat(k))))
        self.hook = hook
        self.total = total
        self.empty = empty
        self.epoch = 0
        self.layers = []         # (key, value), newest last
        self.version = 0
        E.tables.append(self)
        tag = "has:" + name

        def pair(a, b):
            out = []
            if a.data[0] == b.data[0] and (a.data[0].startswith(tag + "@") or a.data[0] == "val:" + name):
                eq = f_and([f_cmp("eq", alg.sub(p, q)) for p, q in zip(a.data[1], b.data[1])])
                out.append(f_or([f_not(eq), f_cmp("eq", alg.sub(alg.from_atom(a), alg.from_atom(b)))]))
            elif a.data[0].startswith(tag + "@") and b.data[0].startswith(tag + "@") \
                    and int(a.data[0].rsplit("@", 1)[1]) < int(b.data[0].rsplit("@", 1)[1]):
                eq = f_and([f_cmp("eq", alg.sub(p, q)) for p, q in zip(a.data[1], b.data[1])])
                out.append(f_or([f_not(eq), f_not(f_cmp("eq", alg.sub(alg.from_atom(a), alg.ONE))),
                                 f_cmp("eq", alg.sub(alg.from_atom(b), alg.ONE))]))
            elif a.data[0].startswith(f"ne:{name}@") and b.data[0].startswith(f"ne:{name}@") \
                    and int(a.data[0].rsplit("@", 1)[1]) < int(b.data[0].rsplit("@", 1)[1]):
                out.append(f_or([f_not(f_cmp("eq", alg.sub(alg.from_atom(a), alg.ONE))),
                                 f_cmp("eq", alg.sub(alg.from_atom(b), alg.ONE))]))
            return out
        E.pair_facts.append(pair)

        def fact(a):
            if a.kind == "App" and a.data[0].startswith(tag + "@"):
                at = alg.from_atom(a)
                has = f_cmp("eq", alg.sub(at, alg.ONE))
                # present keys lie in range, and make the table non-empty
                k = a.data[1][0]
                ep = a.data[0].rsplit("@", 1)[1]
                ne = f_cmp("eq", alg.sub(alg.app(f"ne:{name}@{ep}", alg.ZERO), alg.ONE))
                rng = f_and([f_cmp("le", alg.sub(rat(self.lo), k)), f_cmp("le", alg.sub(k, rat(self.hi)))])
                return [f_or([f_not(has), f_and([rng, ne])])]
            return []
        E.facts.append(fact)

    # ---- engine
    def havoc(self):
        untouched()
        self.epoch += 1

    def __snap__(self):
        return ("table", self.name, self.version if E.strict_tables else 0)

    def base_has(self, k, epoch=None):
        if self.total:
            return mkbool(f_and([to_f(sym.lift(self.lo) <= k), to_f(sym.lift(k) <= self.hi)]))
        ep = self.epoch if epoch is None else epoch
        if self.empty and ep == 0:
            return False
        return mkbool(f_cmp("eq", alg.sub(alg.app(f"has:{self.name}@{ep}", rat(k)), alg.ONE)))

    def _find(self, k):
        """(present?, value) deciding aliasing with earlier stores"""
        for kk, v in reversed(self.layers):
            if isinstance(kk, SymTable):
                if bool(kk.has(k)):
                    return True, kk.val(k)
                continue
            d = alg.sub(rat(kk), rat(k))
            if alg.is_zero(d) or (alg.as_const(d) is None and E.decide(f_cmp("eq", d))):
                return True, v
        return self.base_has(k), None

    # ---- harness
    def has(self, k):
        return self._find(k)[0]

    def had(self, k):
        """present at the start"""
        return self.base_has(k, 0)

    def val(self, k):
        v = self._find(k)[1]
        return self.valf(k) if v is None else v

    # ---- dict interface
    def __contains__(self, k):
        return bool(self._find(k)[0])

    def get(self, k, default=None):
        h, v = self._find(k)
        if not bool(h):
            return default
        return self.valf(k) if v is None else v

    def __getitem__(self, k):
        h, v = self._find(k)
        if not bool(h):
            raise KeyError(k)
        return self.valf(k) if v is None else v

    def __setitem__(self, k, v):
        if not sym.numlike(k):
            raise Unsupported("table key")
        untouched()
        if self.hook:
            self.hook(k, v)
        self.version += 1
        self.layers.append((k, v))

    def setdefault(self, k, v=None):
        if k not in self:
            self[k] = v
        return self[k]

    def update(self, other=(), **kw):
        untouched()
        if isinstance(other, SymTable):
            self.version += 1
            self.layers.append((other, None))
            return
        for k, v in dict(other).items():
            self.version += 1
            self.layers.append((k, v))

    def __bool__(self):
        if self.layers:
            if not all(isinstance(k, SymTable) for k, _ in self.layers):
                return True
            for k, _ in self.layers:
                if bool(k):
                    return True
        if self.total:
            return True
        if self.empty and self.epoch == 0:
            return False
        return E.decide(f_cmp("eq", alg.sub(alg.app(f"ne:{self.name}@{self.epoch}", alg.ZERO), alg.ONE)))

    def _no(self, *a, **k):
        raise Unsupported("operation on a table of symbolic size")
    __len__ = __iter__ = keys = values = items = pop = popitem = copy = clear = __delitem__ = __eq__ = _no
    __hash__ = object.__hash__

    def __repr__(self):
        return f"<table {self.name}>"

    def extreme(self, which):
        """min(table) / max(table): a present key beyond which none is present"""
        m = fresh(which, True)
        E.fcache = {}
        h = self.had(m) if not self.layers else self._no()
        E.assume(to_f(h))
        if which == "min":
            self.lo = m
        else:
            self.hi = m
        E.fcache = {}
        return m


class SymRows(dict):
    """dict[int, dict[int, number or None]]: a select table with arbitrary cells.  cells(x, s) presence has:name@e(x, s)"""

    def __init__(self, name, xlo, xhi, smax, value, hook=None, nones=False, total=False):
        super().__init__()
        self.name, self.xlo, self.xhi, self.smax = name, xlo, xhi, smax
        self.valf, self.hook, self.nones, self.total = value, hook, nones, total
        self.epoch = 0
        self.layers = []
        self.rows = []
        self.version = 0
        E.tables.append(self)
        tags = ("has:" + name, "row:" + name, "key:" + name)

        def split(a):
            if a.kind != "App" or "@" not in a.data[0]:
                return None, None
            t, e = a.data[0].rsplit("@", 1)
            return (t, int(e)) if t in tags else (None, None)

        def pair(a, b):
            ta, ea = split(a)
            tb, eb = split(b)
            if ta is None or ta != tb or ea > eb:
                return []
            eq = f_and([f_cmp("eq", alg.sub(p, q)) for p, q in zip(a.data[1], b.data[1])])
            one = lambda z: f_cmp("eq", alg.sub(alg.from_atom(z), alg.ONE))
            if ea == eb:
                return [f_or([f_not(eq), f_cmp("eq", alg.sub(alg.from_atom(a), alg.from_atom(b)))])]
            return [f_or([f_not(eq), f_not(one(a)), one(b)])]
        E.pair_facts.append(pair)

        def fact(a):
            t, ep = split(a)
            if t is None:
                return []
            one = f_cmp("eq", alg.sub(alg.from_atom(a), alg.ONE))
            x = a.data[1][0]
            rng = [f_cmp("le", alg.sub(rat(self.xlo), x)), f_cmp("le", alg.sub(x, rat(self.xhi)))]
            if t == "row:" + name:
                return [f_or([f_not(one), f_and(rng)])]
            s = a.data[1][1]
            srng = [f_cmp("le", alg.neg(s)), f_cmp("le", alg.sub(s, rat(self.smax)))]
            row = f_cmp("eq", alg.sub(alg.app(f"row:{name}@{ep}", x), alg.ONE))
            if t == "has:" + name:
                key = f_cmp("eq", alg.sub(alg.app(f"key:{name}@{ep}", x, s), alg.ONE))
                return [f_or([f_not(one), key])]
            return [f_or([f_not(one), f_and(rng + srng + [row])])]
        E.facts.append(fact)

    def havoc(self):
        untouched()
        self.epoch += 1

    def __snap__(self):
        return ("rows", self.name, self.version if E.strict_tables else 0)

    def _p(self, tag, *a):
        if self.total:
            r = [to_f(sym.lift(self.xlo) <= a[0]), to_f(sym.lift(a[0]) <= self.xhi)]
            if len(a) == 2:
                r += [to_f(sym.lift(0) <= a[1]), to_f(sym.lift(a[1]) <= self.smax)]
            return mkbool(f_and(r))
        return mkbool(f_cmp("eq", alg.sub(alg.app(f"{tag}:{self.name}@{self.epoch}", *[rat(z) for z in a]), alg.ONE)))

    def had(self, x, s):
        if self.total:
            return self._p("has", x, s)
        return mkbool(f_cmp("eq", alg.sub(alg.app(f"has:{self.name}@0", rat(x), rat(s)), alg.ONE)))

    def _cell(self, x, s):
        for kx, ks, v in reversed(self.layers):
            f = f_and([f_cmp("eq", alg.sub(rat(kx), rat(x))), f_cmp("eq", alg.sub(rat(ks), rat(s)))])
            if f == sym.T or (f != sym.Fa and E.decide(f)):
                return True, v
        return self._p("has", x, s), None

    def has(self, x, s):
        """the cell holds a value"""
        return self._cell(x, s)[0]

    def val(self, x, s):
        v = self._cell(x, s)[1]
        return self.valf(x, s) if v is None else v

    def _row(self, x):
        for kx in self.rows:
            f = f_cmp("eq", alg.sub(rat(kx), rat(x)))
            if f == sym.T or (f != sym.Fa and E.decide(f)):
                return True
        return bool(self._p("row", x))

    def __contains__(self, x):
        return self._row(x)

    def __getitem__(self, x):
        if not self._row(x):
            raise KeyError(x)
        return SymRow(self, x)

    def get(self, x, default=None):
        return SymRow(self, x) if self._row(x) else default

    def __setitem__(self, x, row):
        untouched()
        if not isinstance(row, dict) or row:
            raise Unsupported("row assigned to a select table")
        if self._row(x):
            raise Unsupported("an existing row of a select table is replaced")
        self.rows.append(x)
        self.version += 1

    def setdefault(self, x, row=None):
        if x not in self:
            self[x] = row
        return self[x]

    def _no(self, *a, **k):
        raise Unsupported("operation on a table of symbolic size")
    __len__ = __iter__ = keys = values = items = pop = popitem = copy = clear = __delitem__ = __eq__ = update = _no
    __hash__ = object.__hash__

    def __bool__(self):
        raise Unsupported("emptiness of a select table")

    def __repr__(self):
        return f"<select table {self.name}>"


class SymRow(dict):
    def __init__(self, t, x):
        super().__init__()
        self.t, self.x = t, x

    def _cell(self, s):
        h, v = self.t._cell(self.x, s)
        if isinstance(h, bool) and h:
            return True, v
        if bool(h):
            return True, self.t.valf(self.x, s)
        # not a value: the key may still be there holding None
        if self.t.nones and bool(self.t._p("key", self.x, s)):
            return True, None
        return False, None

    def __contains__(self, s):
        return self._cell(s)[0]

    def __getitem__(self, s):
        h, v = self._cell(s)
        if not h:
            raise KeyError(s)
        return v

    def get(self, s, default=None):
        h, v = self._cell(s)
        return v if h else default

    def __setitem__(self, s, v):
        untouched()
        if self.t.hook:
            self.t.hook(self.x, s, v)
        self.t.version += 1
        self.t.layers.append((self.x, s, v))

    def _no(self, *a, **k):
        raise Unsupported("operation on a row of symbolic size")
    __len__ = __iter__ = keys = values = items = pop = popitem = copy = clear = __delitem__ = __eq__ = update = _no
    __bool__ = _no
    __hash__ = object.__hash__


# ------------------------------------------------------------------------------------------------- concrete reading
class ConTable(dict):
    """the same cells at random; stores go through the hook"""

    def __init__(self, cells, hook=None):
        super().__init__(cells)
        self.start = dict(cells)
        self.hook = hook

    def has(self, k):
        return k in self.keys()

    def had(self, k):
        return k in self.start

    def val(self, k):
        return dict.__getitem__(self, k)

    def __setitem__(self, k, v):
        if self.hook:
            self.hook(k, v)
        super().__setitem__(k, v)


class ConRow(dict):
    def __init__(self, t, x, cells):
        super().__init__(cells)
        self.t, self.x = t, x

    def __setitem__(self, s, v):
        if self.t.hook:
            self.t.hook(self.x, s, v)
        super().__setitem__(s, v)


class ConRows(dict):
    def __init__(self, cells, hook=None):
        """cells: {x: {s: value or None}}"""
        super().__init__()
        self.hook = hook
        self.start = {x: dict(r) for x, r in cells.items()}
        for x, r in cells.items():
            dict.__setitem__(self, x, ConRow(self, x, r))

    def has(self, x, s):
        return dict.get(dict.get(self, x, {}), s) is not None

    def had(self, x, s):
        return self.start.get(x, {}).get(s) is not None

    def val(self, x, s):
        return self[x][s]

    def __setitem__(self, x, row):
        dict.__setitem__(self, x, ConRow(self, x, row) if type(row) is dict else row)
