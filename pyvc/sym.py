"""Symbolic values and the path engine.

The functions under verification are executed by CPython itself on the values defined here:
  Num    exact symbolic number (pyvc.alg.Rat)
  ZBool  formula; `bool()` of an undecided one forks the path (decision prefixes are re-executed)
  SymRange / SymSeq   range and sequence of symbolic length: one generic element under lo <= k < hi
Every fork is checked for feasibility with z3, so the set of explored paths covers every input.
"""
import math
import sys
from fractions import Fraction as F

sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3  # noqa: E402
from . import alg  # noqa: E402
from .alg import Unsupported, Rat  # noqa: E402


class PathAbort(BaseException):
    """infeasible path / assumption false"""


class Fork(BaseException):
    pass


# ------------------------------------------------------------------------------------------------- formulas
T, Fa = ("T",), ("F",)


def f_not(f):
    k = f[0]
    if k == "T":
        return Fa
    if k == "F":
        return T
    if k == "not":
        return f[1]
    if k == "le":
        return ("lt", alg.neg(f[1]))
    if k == "lt":
        return ("le", alg.neg(f[1]))
    return ("not", f)


def f_and(fs):
    out = []
    for f in fs:
        if f == Fa:
            return Fa
        if f != T:
            out.append(f)
    return T if not out else (out[0] if len(out) == 1 else ("and", tuple(out)))


def f_or(fs):
    out = []
    for f in fs:
        if f == T:
            return T
        if f != Fa:
            out.append(f)
    return Fa if not out else (out[0] if len(out) == 1 else ("or", tuple(out)))


def f_cmp(op, r):
    c = alg.as_const(r)
    if c is not None:
        ok = c <= 0 if op == "le" else c < 0 if op == "lt" else c == 0
        return T if ok else Fa
    if any(alg.atom_by(i).kind in ("Exp", "Log") for i in r.atoms()) and E.simp_depth < 3:
        E.simp_depth += 1
        try:
            r2 = simp_cmp(op, r)
        finally:
            E.simp_depth -= 1
        if r2 is not r:
            c = alg.as_const(r2)
            if c is not None:
                return T if (c <= 0 if op == "le" else c < 0 if op == "lt" else c == 0) else Fa
            r = r2
    if op == "eq":
        if r.den:
            r = Rat(r.num)
        if len(r.num) >= 3:
            mn, lc, prim = alg.p_normal(r.num)
            q = alg.p_sqrt(prim) or alg.p_sqrt({m: -v for m, v in prim.items()})
            if q is not None:
                unit = all(e < 0 or alg.atom_by(i).pos for i, e in mn)
                r = Rat(q) if unit else Rat({m2: v for m2, v in alg.p_scale(q, mn, 1).items()})
        # canonical sign
        lead = r.num[alg._lead(r.num)]
        if lead < 0:
            r = alg.neg(r)
    return (op, r)


def _drop_content(r, op):
    """remove factors of known sign from the numerator; None if nothing to do.  returns (r, flipped)"""
    mn, lc, q = alg.p_normal(r.num)
    keep = []
    flip = False
    for i, e in mn:
        a = alg.atom_by(i)
        if e < 0 and op == "eq":
            continue
        if a.pos:
            continue
        s = _sign(alg.from_atom(a))
        if s == 0:
            keep.append((i, e))
        elif s < 0 and F(e).denominator == 1 and int(e) % 2:
            flip = not flip
    den = []
    for f, n in r.den:
        if op == "eq":
            continue
        s = _sign(Rat(dict(f))) if n % 2 else 1
        if s == 0:
            den.append((f, n))
        elif s < 0:
            flip = not flip
    num = alg.p_scale(q, tuple(keep), lc) if keep else {m: v * lc for m, v in q.items()}
    out = Rat(num, tuple(den))
    return out, flip


def simp_cmp(op, r):
    """sign-preserving simplification of  r op 0  for expressions with exponentials and logarithms:
    c*(e^A - e^B) has the sign of c*(A - B);  c*(log a - log b) has the sign of c*(a - b)"""
    flipped = False
    for _ in range(6):
        if alg.as_const(r) is not None or not any(alg.atom_by(i).kind in ("Exp", "Log") for i in r.atoms()):
            break
        r, fl = _drop_content(r, op)
        flipped ^= fl
        if r.den or len(r.num) > 2 or not r.num:
            break
        terms = list(r.num.items())
        if len(terms) == 1:
            (m, c), = terms
            if len(m) == 1 and m[0][1] == 1 and alg.atom_by(m[0][0]).kind == "Log":
                r = alg.scale(alg.sub(alg.atom_by(m[0][0]).data, alg.ONE), c)
                continue
            break
        (m1, c1), (m2, c2) = terms
        if c1 < 0:
            (m1, c1), (m2, c2) = (m2, c2), (m1, c1)
        if not (c1 > 0 > c2):
            break
        kinds = {alg.atom_by(i).kind for m in (m1, m2) for i, e in m}
        if kinds == {"Exp"}:
            sm = alg.ZERO
            for m, k in ((m1, 1), (m2, -1)):
                for i, e in m:
                    mm, fs = alg.atom_by(i).data
                    sm = alg.add(sm, alg.scale(Rat({mm: F(1)}, fs), F(e) * k))
            if c1 != -c2:
                sm = alg.add(sm, alg.log(alg.const(F(c1) / F(-c2))))
            r = sm
            continue
        if kinds == {"Log"} and c1 == -c2 and len(m1) == len(m2) == 1 and m1[0][1] == m2[0][1] == 1:
            r = alg.sub(alg.atom_by(m1[0][0]).data, alg.atom_by(m2[0][0]).data)
            continue
        break
    return (alg.neg(r) if flipped else r)


def f_show(f):
    k = f[0]
    if k in ("T", "F"):
        return "true" if k == "T" else "false"
    if k == "not":
        return "not(" + f_show(f[1]) + ")"
    if k in ("and", "or"):
        return "(" + f" {k} ".join(f_show(x) for x in f[1]) + ")"
    return alg.show(f[1]) + {"le": " <= 0", "lt": " < 0", "eq": " == 0"}[k]


def f_rats(f, out=None):
    out = [] if out is None else out
    if f[0] in ("le", "lt", "eq"):
        out.append(f[1])
    elif f[0] == "not":
        f_rats(f[1], out)
    elif f[0] in ("and", "or"):
        for g in f[1]:
            f_rats(g, out)
    return out


def f_subst(f, mp):
    k = f[0]
    if k in ("le", "lt", "eq"):
        return f_cmp(k, alg.subst(f[1], mp))
    if k == "not":
        return f_not(f_subst(f[1], mp))
    if k == "and":
        return f_and([f_subst(x, mp) for x in f[1]])
    if k == "or":
        return f_or([f_subst(x, mp) for x in f[1]])
    return f


# ------------------------------------------------------------------------------------------------- values
def rat(x):
    if isinstance(x, Num):
        return x.r
    if isinstance(x, Rat):
        return x
    if isinstance(x, ZBool):
        return alg.ONE if bool(x) else alg.ZERO
    if isinstance(x, (int, float, F)):
        return alg.const(x)
    t = type(x).__module__
    if t == "numpy" and getattr(x, "shape", None) == ():
        return alg.const(x.item())
    raise TypeError(f"unsupported operand type: {type(x).__name__}")


def wrap(r):
    c = alg.as_const(r)
    if c is not None and c.denominator == 1:
        return int(c)
    return Num(r)


def numlike(x):
    return isinstance(x, (Num, int, float, F, ZBool)) or type(x).__module__ == "numpy"


class ZBool:
    __slots__ = ("f",)
    __array_ufunc__ = None

    def __init__(self, f):
        self.f = f

    def __bool__(self):
        return E.decide(self.f)

    def __invert__(self):
        return mkbool(f_not(self.f))

    def __and__(self, o):
        return mkbool(f_and([self.f, to_f(o)]))

    __rand__ = __and__

    def __or__(self, o):
        return mkbool(f_or([self.f, to_f(o)]))

    __ror__ = __or__

    def _n(self):
        return 1 if bool(self) else 0

    def __add__(self, o): return self._n() + o
    __radd__ = __add__
    def __mul__(self, o): return self._n() * o
    __rmul__ = __mul__
    def __sub__(self, o): return self._n() - o
    def __rsub__(self, o): return o - self._n()
    def __int__(self): return self._n()
    def __index__(self): return self._n()
    def __eq__(self, o): return bool(self) == o
    def __hash__(self): return hash(bool(self))
    def __repr__(self): return "ZBool(" + f_show(self.f) + ")"


def mkbool(f):
    if f == T:
        return True
    if f == Fa:
        return False
    return ZBool(f)


def to_f(b):
    if isinstance(b, ZBool):
        return b.f
    if isinstance(b, Num):
        return f_not(f_cmp("eq", b.r))
    return T if b else Fa


class Num:
    __slots__ = ("r",)
    __array_ufunc__ = None

    def __init__(self, r):
        self.r = r

    # arithmetic
    def _bin(self, o, fn, rev=False):
        if not numlike(o):
            return NotImplemented
        a, b = self.r, rat(o)
        if rev:
            a, b = b, a
        return wrap(fn(a, b))

    def __add__(self, o): return self._bin(o, alg.add)
    def __radd__(self, o): return self._bin(o, alg.add)
    def __sub__(self, o): return self._bin(o, alg.sub)
    def __rsub__(self, o): return self._bin(o, alg.sub, True)
    def __mul__(self, o): return self._bin(o, alg.mul)
    def __rmul__(self, o): return self._bin(o, alg.mul)
    def __truediv__(self, o): return self._bin(o, s_div)
    def __rtruediv__(self, o): return self._bin(o, s_div, True)
    def __pow__(self, o): return self._bin(o, s_pow)
    def __rpow__(self, o): return self._bin(o, s_pow, True)

    def __floordiv__(self, o):
        return s_floor(self / o)

    def __rfloordiv__(self, o):
        return s_floor(o / self)

    def __mod__(self, o):
        return self - o * s_floor(self / o)

    def __rmod__(self, o):
        return o - self * s_floor(o / self)

    def __neg__(self): return wrap(alg.neg(self.r))
    def __pos__(self): return self
    def __abs__(self): return s_abs(self)

    # comparisons
    def _cmp(self, o, op, rev=False, strict_none=False):
        if not numlike(o):
            if isinstance(o, (list, tuple, str)) or o is None:
                raise TypeError(f"comparison of number with {type(o).__name__}")
            return NotImplemented
        if isinstance(o, float) and math.isinf(o):
            pos = o > 0
            return pos != rev
        a, b = self.r, rat(o)
        if rev:
            a, b = b, a
        return mkbool(f_cmp(op, alg.sub(a, b)))

    def __le__(self, o): return self._cmp(o, "le")
    def __lt__(self, o): return self._cmp(o, "lt")
    def __ge__(self, o): return self._cmp(o, "le", True)
    def __gt__(self, o): return self._cmp(o, "lt", True)

    def __eq__(self, o):
        if not numlike(o):
            return False
        if isinstance(o, float) and (math.isinf(o) or math.isnan(o)):
            return False
        return mkbool(f_cmp("eq", alg.sub(self.r, rat(o))))

    def __ne__(self, o):
        e = self.__eq__(o)
        return (not e) if isinstance(e, bool) else ~e

    def __hash__(self):
        c = alg.as_const(self.r)
        if c is not None:
            return hash(c)
        raise Unsupported("symbolic value used as a dictionary key")

    def __bool__(self):
        return not bool(self == 0)

    # conversions
    def __floor__(self): return s_floor(self)
    def __ceil__(self): return -s_floor(-self)
    def __trunc__(self): return s_int(self)

    def __round__(self, nd=None):
        return s_round(self, nd)

    def __format__(self, spec): return repr(self)

    def __float__(self):
        c = alg.as_const(self.r)
        if c is not None:
            return float(c)
        raise Unsupported("symbolic value converted to a machine float")

    def __index__(self):
        c = alg.as_const(self.r)
        if c is not None and c.denominator == 1:
            return int(c)
        raise Unsupported("symbolic value used as an index")

    def is_integer(self):
        return alg.is_int(self.r)

    def item(self):
        return self

    def __repr__(self):
        return alg.show(self.r)


class Maybe:
    """result of a contract that says: None, or this value.  Which of the two is left open until it matters"""
    __slots__ = ("thunk", "val", "state", "orig")
    __array_ufunc__ = None
    __hash__ = None

    def __init__(self, thunk):
        self.thunk, self.val, self.state, self.orig = thunk, None, None, thunk

    def value(self):
        if self.thunk is not None:
            self.val, self.thunk = self.thunk(), None
        return self.val

    def none(self):
        if self.state is None:
            self.state = not E.choose()
            if not self.state:
                E.known.append(self.orig)       # (which answers the path relies on: replayed as facts)
        return self.state

    def get(self):
        return None if self.none() else self.value()

    def __bool__(self):
        v = self.get()
        return False if v is None else bool(v != 0)

    def __neg__(self): return -self.get()
    def __abs__(self): return abs(self.get())
    def __float__(self): return float(self.get())
    def __repr__(self): return f"Maybe({self.value()!r})"
    def __format__(self, spec): return "maybe"


def _maybe_op(name):
    import operator
    op = getattr(operator, name)

    def f(self, o):
        return op(self.get(), unwrap(o))

    def r(self, o):
        return op(unwrap(o), self.get())
    return f, r


def unwrap(o):
    return o.get() if isinstance(o, Maybe) else o


for _n in ("add", "sub", "mul", "truediv", "pow", "mod", "floordiv"):
    _f, _r = _maybe_op(_n)
    setattr(Maybe, f"__{_n}__", _f)
    setattr(Maybe, f"__r{_n}__", _r)
for _n in ("lt", "le", "gt", "ge", "eq", "ne"):
    setattr(Maybe, f"__{_n}__", _maybe_op(_n)[0])


def is_none(x):
    return x.none() if isinstance(x, Maybe) else x is None


def all_given(*xs):
    """x is not None and y is not None and ...; on the other side nothing is remembered about which one is missing"""
    open_ = []
    for x in xs:
        if isinstance(x, Maybe):
            if x.state is True:
                return False
            if x.state is None:
                open_.append(x)
        elif x is None:
            return False
    if open_ and not E.choose():
        return False
    for x in open_:
        x.state = False
        E.known.append(x.orig)
    return True


def lift(x):
    return x if isinstance(x, Num) else Num(rat(x))


def s_div(a, b):
    if alg.is_zero(b):
        raise ZeroDivisionError("division by zero")
    if alg.as_const(b) is None and not E.known_nonzero(b):
        if E.decide(f_cmp("eq", b)):
            raise ZeroDivisionError("division by zero")
    return alg.div(a, b)


def s_pow(a, b):
    c = alg.as_const(b)
    if c is not None and F(c).denominator == 1:
        if c < 0 and alg.as_const(a) is None and not E.known_nonzero(a):
            if E.decide(f_cmp("eq", a)):
                raise ZeroDivisionError("0.0 cannot be raised to a negative power")
        return alg.rpow_const(a, c)
    ca = alg.as_const(a)
    if alg.is_zero(a):
        if E.decide(f_cmp("eq", b)):
            return alg.ONE
        if E.decide(f_cmp("lt", b)):
            raise ZeroDivisionError("0.0 cannot be raised to a negative power")
        return alg.ZERO
    if ca is None or ca <= 0:
        if not E.known_positive(a):
            if E.decide(f_cmp("eq", a)):
                return s_pow(alg.ZERO, b)
            if E.decide(f_cmp("lt", a)):
                if c is not None or not alg.is_int(b):
                    raise Unsupported("fractional power of a negative number")
                raise Unsupported("symbolic power of a negative number")
    return alg.rpow(a, b)


def s_floor(x):
    if not isinstance(x, Num):
        return math.floor(x)
    out = alg.floor(x.r)
    # resolve the remaining floor atoms whose value is determined on this path
    res = out
    for i in out.atoms():
        a = alg.atom_by(i)
        if a.kind == "App" and a.data[0] == "floor":
            arg = a.data[1][0]
            for k in (0, -1, 1):
                if E.prove(f_and([f_cmp("le", alg.sub(alg.const(k), arg)),
                                  f_cmp("lt", alg.sub(arg, alg.const(k + 1)))])):
                    res = alg.replace_atoms(res, {i: alg.const(k)})
                    break
            else:
                # case split (complete when the argument is within two units of zero, else opaque)
                for k in (0, 1, 2, -1, -2):
                    c = f_and([f_cmp("le", alg.sub(alg.const(k), arg)),
                               f_cmp("lt", alg.sub(arg, alg.const(k + 1)))])
                    if E.feasible(c) and E.prove(f_and([f_cmp("le", alg.sub(alg.const(-2), arg)),
                                                        f_cmp("lt", alg.sub(arg, alg.const(3)))])):
                        if E.decide(c):
                            res = alg.replace_atoms(res, {i: alg.const(k)})
                            break
    return wrap(res)


def s_abs(x):
    if not isinstance(x, Num):
        return abs(x)
    return -x if bool(x < 0) else x


def s_int(x):
    if isinstance(x, Num):
        if alg.is_int(x.r):
            return x
        if bool(x >= 0):
            return s_floor(x)
        return -s_floor(-x)
    return int(x)


def s_round(x, nd=None):
    if not isinstance(x, Num):
        return round(x) if nd is None else round(x, nd)
    if alg.is_int(x.r):
        return x
    if nd is None:
        return s_floor(x + Num(alg.const(F(1, 2))))
    if isinstance(nd, int) and nd >= 6:
        E.note(f"round(_, {nd}) treated as the identity")
        return x
    return wrap(alg.app(f"round{nd}", x.r))


class SymRange:
    def __init__(self, lo, hi, step=1):
        if step != 1:
            raise Unsupported("symbolic range with a step")
        self.lo, self.hi = lo, hi

    def __iter__(self):
        n = self.hi - self.lo
        if isinstance(n, int):
            return iter([self.lo + i for i in range(max(0, n))])
        raise Unsupported("iteration over a range of symbolic length")

    def __len__(self):
        raise Unsupported("len of a symbolic range")


def s_range(*a):
    if all(isinstance(x, int) for x in a):
        return range(*a)
    if any(isinstance(x, float) for x in a):
        raise TypeError("'float' object cannot be interpreted as an integer")
    for x in a:
        if isinstance(x, Num) and not alg.is_int(x.r):
            if not E.int_like(x.r):
                raise TypeError("'float' object cannot be interpreted as an integer")
    if len(a) == 1:
        return SymRange(0, a[0])
    return SymRange(*a)


class SymSeq:
    """sequence of symbolic length: element k for k in [lo, hi)"""

    def __init__(self, pieces):
        self.pieces = pieces      # list of (var idx, body Num/obj, lo, hi) or concrete lists

    def __iter__(self):
        if all(isinstance(p, list) for p in self.pieces):
            return iter([x for p in self.pieces for x in p])
        raise Unsupported("iteration over a sequence of symbolic length")

    def __len__(self):
        if all(isinstance(p, list) for p in self.pieces):
            return sum(len(p) for p in self.pieces)
        raise Unsupported("len of a symbolic sequence")


_cnt = [0]


def fresh(prefix, is_int=False):
    _cnt[0] += 1
    return Num(alg.var(f"{prefix}!{_cnt[0]}", is_int))


def vidx(n):
    return next(iter(n.r.num))[0][0]


def body_cases(fn, lo, hi, is_int=True):
    """evaluate fn at a generic point of [lo, hi) (ints) or (lo, hi) (reals), splitting the range where the
    body's own branching depends on the position; returns pieces (var, value, lo, hi)"""
    out = []
    work = [(lo, hi)]
    guard = 0
    while work:
        guard += 1
        if guard > 12:
            raise Unsupported("too many range splits")
        a, b = work.pop(0)
        if is_int:
            # empty range contributes nothing
            if not E.prove(to_f(a <= b)):
                if not bool(a <= b):
                    continue
            if E.prove(to_f(a == b)):
                continue
        k = fresh("k" if is_int else "y", is_int)
        rng = f_and([to_f(a <= k), to_f(k < b)] if is_int else [to_f(a < k), to_f(k < b)])

        def run():
            E.assume(rng)
            return fn(k)
        res, split = E.sub_explore(run, k)
        if split is None:
            if not res:
                # body unreachable for every position: the range is empty
                continue
            out.append((k, res[0], a, b))
            continue
        work = split_range(split, k, a, b, is_int) + work
    return out


def split_range(f, k, a, b, is_int=True):
    """the ranges into which a comparison linear in the index k divides [a, b)"""
    r = f[1]
    c, rest = _lin(r, vidx(k))
    if c is None:
        raise Unsupported("non-linear branching on a loop index")
    cut = Num(alg.scale(rest, F(-1) / c))        # k == cut
    if is_int:
        if f[0] == "eq":
            p1 = s_ceil(cut)
            bounds = [a, p1, p1 + 1, b]
        else:
            # c*k + rest <= 0 (le) / < 0 (lt)
            if f[0] == "le":
                m = s_floor(cut) + 1 if c > 0 else s_ceil(cut)
            else:
                m = s_ceil(cut) if c > 0 else s_floor(cut) + 1
            bounds = [a, m, b]
    else:
        bounds = [a, cut, b]
    # clip interior bounds to [a, b]
    clipped = [a]
    for m in bounds[1:-1]:
        m = wrap(rat(m))
        if bool(m < a):
            m = a
        elif bool(m > b):
            m = b
        clipped.append(m)
    clipped.append(b)
    return [(clipped[i], clipped[i + 1]) for i in range(len(clipped) - 1)
            if alg.key_ne(rat(clipped[i]), rat(clipped[i + 1]))]


def s_ceil(x):
    return -s_floor(-x) if isinstance(x, Num) else math.ceil(x)


def _lin(r, v):
    """r = c*v + rest with constant c, else (None, None)"""
    if r.den:
        return None, None
    c = F(0)
    rest = {}
    for m, q in r.num.items():
        hit = [(i, e) for i, e in m if v in alg.atom_by(i).vars]
        if not hit:
            rest[m] = q
        elif len(m) == 1 and m[0] == (v, 1):
            c += q
        else:
            return None, None
    return (c, Rat(rest)) if c else (None, None)


def seq_sum(seq, start=0):
    tot = start
    for p in seq.pieces:
        if isinstance(p, list):
            for x in p:
                tot = tot + x
        else:
            k, val, a, b = p
            if not numlike(val):
                raise Unsupported("sum of non-numbers")
            tot = tot + wrap(alg.summation(rat(val), vidx(k), rat(a), rat(b)))
    return tot


def seq_prod(seq):
    tot = 1
    for p in seq.pieces:
        if isinstance(p, list):
            for x in p:
                tot = tot * x
        else:
            k, val, a, b = p
            tot = tot * wrap(alg.product(rat(val), vidx(k), rat(a), rat(b)))
    return tot


def s_integral(fn, lo, hi):
    tot = 0
    if E.prove(to_f(lift(lo) <= hi)) or bool(lift(lo) <= hi):
        sgn = 1
    else:
        lo, hi, sgn = hi, lo, -1
    for k, val, a, b in body_cases(fn, lift(lo), lift(hi), False):
        tot = tot + wrap(alg.integral(rat(val), vidx(k), rat(a), rat(b)))
    return tot * sgn


def s_derivative(fn, at):
    y = fresh("y")
    # evaluated in a neighbourhood of the point: branches are resolved at the point itself
    E.point_alias.append((vidx(y), rat(at)))
    try:
        v = fn(y)
    finally:
        E.point_alias.pop()
    return wrap(alg.subst(alg.diff(rat(v), vidx(y)), {vidx(y): rat(at)}))


# ------------------------------------------------------------------------------------------------- engine
class Frame:
    def __init__(self, prefix):
        self.prefix = prefix
        self.trace = []
        self.conds = []
        self.forks = []
        self.kvar = None


class Engine:
    def __init__(self):
        self.reset()

    any_iter = False

    def reset(self):
        self.frames = [Frame(())]
        self.cache = {}
        self.zcache = {}           # formula -> z3 expression, its atoms, side conditions
        self.fcache = {}           # facts of atoms and pairs (per path)
        self.notes = set()
        self.tables = []
        self.summing = 0
        self.inv_obj = None
        self.while_fact = None
        self.known = []
        self.describe = None
        self.strict_tables = True
        self.bindings = {}
        self.point_alias = []
        self.facts = []            # callables (atom) -> list of formulas
        self.stats = {"queries": 0, "time": 0.0, "unknown": 0}
        self.timeout = 400
        self.patience = getattr(self, "patience", 1)
        self.max_decisions = 400
        self.contract_uses = set()
        self.pre_failures = []
        self.sticky = []
        self.simp_depth = 0
        self.in_sums = False

    def note(self, s):
        self.notes.add(s)

    # ---------- path conditions
    def conds(self):
        return [c for fr in self.frames for c in fr.conds]

    def assume(self, f):
        f = to_f(f) if not isinstance(f, tuple) else f
        if f == T:
            return
        if f == Fa or not self.feasible(f):
            raise PathAbort()
        fs = f[1] if f[0] == "and" else (f,)
        for g in fs:
            self.frames[-1].conds.append(g)

    def decide(self, f):
        if f == T:
            return True
        if f == Fa:
            return False
        for v, at in self.point_alias:
            f = f_subst(f, {v: at})
        if f == T or f == Fa:
            return f == T
        fr = self.frames[-1]
        pos = len(fr.trace)
        if pos > self.max_decisions:
            raise Unsupported("too many decisions on one path")
        nf = f_not(f)
        if pos < len(fr.prefix):
            d = fr.prefix[pos]
        elif f in fr.conds:
            d = True
        elif nf in fr.conds:
            d = False
        else:
            ft = self.feasible(f)
            ff = self.feasible(nf) if ft else True
            if ft and ff:
                fr.forks.append((tuple(fr.trace), f))
                d = True
            else:
                d = ft
        fr.trace.append(d)
        g = f if d else nf
        for h in (g[1] if g[0] == "and" else (g,)):
            if h not in fr.conds:
                fr.conds.append(h)
        return d

    def choose(self):
        """an arbitrary choice (both outcomes are explored)"""
        fr = self.frames[-1]
        pos = len(fr.trace)
        if pos > self.max_decisions:
            raise Unsupported("too many decisions on one path")
        if pos < len(fr.prefix):
            d = fr.prefix[pos]
        else:
            fr.forks.append((tuple(fr.trace), None))
            d = True
        fr.trace.append(d)
        return d

    def explore(self, fn, max_paths=6000):
        """all paths of fn; returns list of (frame, value or exception)"""
        out = []
        work = [()]
        while work:
            prefix = work.pop()
            fr = Frame(prefix)
            self.frames.append(fr)
            try:
                try:
                    v = fn()
                    out.append((fr, v))
                except PathAbort:
                    pass
            finally:
                self.frames.pop()
            for tr, f in fr.forks:
                work.append(tr + (False,))
            if len(out) > max_paths:
                raise Unsupported("too many paths")
        return out

    def sub_explore(self, fn, k):
        """explore the body of a comprehension/loop/integral at generic k.
        returns ([value], None) or ([], formula to split the range on).  k-free branching forks the outer path."""
        kv = vidx(k)
        while True:
            work = [()]
            res = []
            allforks = []
            while work:
                prefix = work.pop()
                fr = Frame(prefix)
                self.frames.append(fr)
                try:
                    try:
                        v = fn()
                        res.append((fr, v))
                    except PathAbort:
                        pass
                finally:
                    self.frames.pop()
                for tr, f in fr.forks:
                    allforks.append(f)
                    work.append(tr + (False,))
                if len(res) > 40:
                    raise Unsupported("too many paths in a loop body")
            if len(res) <= 1:
                return [v for _, v in res], None
            vals = [v for _, v in res]
            if all(_same(vals[0], v) for v in vals[1:]):
                return [vals[0]], None
            for f in allforks:
                if f is None:
                    raise Unsupported("arbitrary choice on a loop index")
                if not any(kv in r.vars for r in f_rats(f)):
                    self.decide(f)         # fork the outer path, then redo the body
                    break
            else:
                for f in allforks:
                    if f[0] in ("le", "lt", "eq") and _lin(f[1], kv)[0] is not None:
                        return [], f
                raise Unsupported("branching on a loop index is not a threshold")

    # ---------- solver
    def feasible(self, f):
        return self.check(f) != "unsat"

    def prove(self, f):
        f = to_f(f) if not isinstance(f, tuple) else f
        if f == T:
            return True
        if f == Fa:
            return False
        return self.check(f_not(f)) == "unsat"

    def known_positive(self, r):
        if not r.den and _all_positive(r.num):
            return True
        return self.prove(f_cmp("lt", alg.neg(r)))

    def sum_positive(self, a, lo, hi):
        """the summand (integrand) of the prefix sum `a` is positive everywhere between lo and hi"""
        core = a.data[0]
        if len(core.num) != 1 or core.den:
            return False
        (m, c), = core.num.items()
        if c < 0:
            return False
        if all(alg.atom_by(i).pos for i, e in m):
            return True
        key = ("sum", a.kind, core.key, lo.key, hi.key, tuple(self.conds()))
        if key not in self.cache:
            k = alg.var("#k" + a.kind, a.kind == "PS")
            inst = alg.subst(core, {alg._bv(): k})
            f = f_and([f_cmp("le", alg.sub(lo, k)), f_cmp("lt", alg.sub(k, hi)), f_cmp("le", inst)])
            self.cache[key] = f == Fa or self.check(f, timeout=1000) == "unsat"
        return self.cache[key]

    def known_nonzero(self, r):
        if len(r.num) == 1:
            (m, c), = r.num.items()
            if all(alg.atom_by(i).pos for i, e in m):
                return True
        elif _all_positive(r.num):
            return True
        return self.prove(f_not(f_cmp("eq", r)))

    def int_like(self, r):
        return alg.is_int(r)

    def check(self, f, timeout=None, extra=()):
        key = (f, tuple(self.conds()), tuple(extra))
        hit = self.cache.get(key)
        if hit is not None:
            return hit
        import time
        t0 = time.time()
        self.stats["queries"] += 1
        res = self._check(f, timeout or self.timeout, extra)
        self.stats["time"] += time.time() - t0
        if res == "unknown":
            self.stats["unknown"] += 1
        self.cache[key] = res
        return res

    def _check(self, f, timeout, extra=()):
        conds = self.conds() + list(extra)
        # stage 1: only linear conditions over plain variables
        lin = [c for c in conds if _linear_f(c)]
        if _linear_f(f):
            s = z3.Solver()
            s.set("timeout", 2000 * self.patience)
            z = Z3Ctx(self)
            for c in lin:
                _assert(s, z.tr(c))
            _assert(s, z.tr(f))
            r = str(s.check())
            if r == "unsat":
                return r
            if len(lin) == len(conds):
                return r
        rel = _relevant(f, conds)
        s = z3.Solver()
        s.set("timeout", timeout * self.patience)
        z = Z3Ctx(self)
        try:
            for c in rel:
                _assert(s, z.tr(c))
            _assert(s, z.tr(f))
            for a in z.axioms():
                _assert(s, a)
        except Unsupported:
            return "unknown"
        return str(s.check())

    def model(self, extra=(), bounds=60):
        """values of the plain variables in some model of the path condition"""
        conds = self.conds() + list(extra)
        for tmo, bnd in ((1500, bounds), (1500, None)):
            s = z3.Solver()
            s.set("timeout", tmo)
            z = Z3Ctx(self)
            try:
                for c in conds:
                    s.add(z.tr(c))
                for a in z.axioms():
                    s.add(a)
                if bnd is not None:
                    for i, v in z.av.items():
                        if alg.atom_by(i).kind == "Var" and alg.atom_by(i).is_int:
                            s.add(v <= bnd, v >= -bnd)
            except Unsupported:
                return None
            if str(s.check()) == "sat":
                m = s.model()
                out = {}
                for i, v in z.av.items():
                    a = alg.atom_by(i)
                    if a.kind == "Var":
                        q = m.eval(v, model_completion=True)
                        try:
                            if z3.is_int_value(q):
                                out[a.data[0]] = q.as_long()
                            elif z3.is_rational_value(q):
                                out[a.data[0]] = float(q.as_fraction())
                            else:
                                out[a.data[0]] = float(q.approx(12).as_fraction())
                        except Exception:
                            pass
                return out
        return None


def _assert(s, e):
    z3.Z3_solver_assert(s.ctx.ref(), s.solver, e.as_ast())


def _all_positive(p):
    return all(c > 0 and all(alg.atom_by(i).pos for i, e in m) for m, c in p.items())


def _same(a, b):
    if isinstance(a, (Num, int, float, F)) and isinstance(b, (Num, int, float, F)) \
            and not isinstance(a, bool) and not isinstance(b, bool):
        return alg.is_zero(alg.sub(rat(a), rat(b)))
    if isinstance(a, ZBool) or isinstance(b, ZBool):
        return False
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(_same(x, y) for x, y in zip(a, b))
    return a is b or (isinstance(a, (str, bool, type(None))) and a == b)


def _linear_r(r):
    if r.den:
        return False
    for m in r.num:
        if len(m) > 1:
            return False
        for i, e in m:
            if e != 1 or alg.atom_by(i).kind != "Var":
                return False
    return True


def _linear_f(f):
    return all(_linear_r(r) for r in f_rats(f))


def _deep_atoms(r, seen):
    for i in r.atoms():
        if i in seen:
            continue
        seen.add(i)
        a = alg.atom_by(i)
        if a.kind == "App":
            for x in a.data[1]:
                _deep_atoms(x, seen)
        elif a.kind == "Exp":
            _deep_atoms(Rat({a.data[0]: F(1)}, a.data[1]), seen)
        elif a.kind == "Log":
            _deep_atoms(a.data, seen)
        elif a.kind in ("PS", "PI", "PP"):
            _deep_atoms(a.data[1], seen)
    return seen


_da_cache = {}


def _f_atoms(f):
    c = _da_cache.get(f)
    if c is None:
        s = set()
        for r in f_rats(f):
            _deep_atoms(r, s)
        for i in list(s):
            a = alg.atom_by(i)
            if a.kind == "App" and a.data[0].split(":")[0] in ("has", "row", "key", "ne"):
                s.add("table " + a.data[0].split("@")[0].split(":", 1)[1])   # cells of one table belong together
        c = _da_cache[f] = frozenset(s)
    return c


def _relevant(f, conds):
    cur = set(_f_atoms(f))
    rest = list(conds)
    out = []
    changed = True
    while changed:
        changed = False
        nr = []
        for c in rest:
            a = _f_atoms(c)
            if a & cur or not a:
                out.append(c)
                if not a <= cur:
                    cur |= a
                    changed = True
            else:
                nr.append(c)
        rest = nr
    return out


def log_bounds(c):
    """rational bounds of log(c), c > 0: atanh series with an explicit remainder (no floating point)"""
    z = (c - 1) / (c + 1)
    if abs(z) > F(1, 2):
        if c > 1:
            l1, h1 = log_bounds(c / 2)
            l2, h2 = log_bounds(F(2))
        else:
            l1, h1 = log_bounds(c * 2)
            l2, h2 = log_bounds(F(2))
            return l1 - h2, h1 - l2
        return l1 + l2, h1 + h2
    n = 30
    t = sum((z ** (2 * k + 1) / (2 * k + 1) for k in range(n)), F(0)) * 2
    eps = F(1, 10 ** 16)        # remainder <= 2|z|^61/(61(1-z^2)) < 1e-18 for |z| <= 1/2
    t = F(int(t * 10 ** 18), 10 ** 18)
    return t - eps, t + eps


class Z3Ctx:
    """translation of formulas to z3 over Ackermannised atoms, with defining axioms of the atoms"""

    def __init__(self, eng):
        self.e = eng
        self.av = {}
        self.side = {}

    def atom(self, i):
        v = self.av.get(i)
        if v is None:
            a = alg.atom_by(i)
            v = z3.Int(f"a{i}") if a.is_int else z3.Real(f"a{i}")
            self.av[i] = v
        return v

    def powr(self, i, e):
        a = alg.atom_by(i)
        v = self.atom(i)
        vv = z3.ToReal(v) if a.is_int else v
        e = F(e)
        if e.denominator != 1:
            q = e.denominator
            root = z3.Real(f"a{i}r{q}")
            if (i, q) not in self.side:
                p = root
                for _ in range(q - 1):
                    p = p * root
                self.side[(i, q)] = [p == vv, root > 0]
            vv = root
            e = e * q
        n = int(e)
        p = vv
        for _ in range(n - 1):
            p = p * vv
        return p

    def poly(self, p):
        t = []
        for m, c in p.items():
            x = z3.RealVal(str(c))
            for i, e in m:
                x = x * self.powr(i, e)
            t.append(x)
        return z3.Sum(t) if len(t) > 1 else (t[0] if t else z3.RealVal(0))

    def clear(self, r):
        """(numerator polynomial without negative exponents, list of sign-relevant factors (poly) cleared)"""
        neg = {}
        for m in r.num:
            for i, e in m:
                if e < 0:
                    neg[i] = min(neg.get(i, 0), e)
        num = r.num
        signs = []
        if neg:
            num = alg.p_scale(num, tuple(sorted((i, -e) for i, e in neg.items())), F(1))
            for i, e in neg.items():
                a = alg.atom_by(i)
                if not a.pos:
                    if F(e).denominator == 1 and int(e) % 2 == 0:
                        continue
                    signs.append({((i, 1),): F(1)})
        for fk, n in r.den:
            if n % 2:
                signs.append(dict(fk))
        return num, signs

    def cmp(self, op, r):
        num, signs = self.clear(r)
        if op == "eq":
            if all(alg.atom_by(i).is_int and e > 0 for m in num for i, e in m) and \
                    all(c.denominator == 1 for c in num.values()):
                return self.ipoly(num) == 0
            return self.poly(num) == 0
        if not signs and all(alg.atom_by(i).is_int and e > 0 and F(e).denominator == 1
                             for m in num for i, e in m) and \
                all(c.denominator == 1 for c in num.values()):
            n = self.ipoly(num)
        else:
            n = self.poly(num)
        for s in signs:
            n2 = []
            # drop factors of known sign
            q = self.e_sign(s)
            if q == 1:
                continue
            if q == -1:
                n = -n
                continue
            n = n * self.poly_pos(s)
        return n <= 0 if op == "le" else n < 0

    def poly_pos(self, s):
        num, _ = self.clear(Rat(s))
        return self.poly(num)

    def e_sign(self, s):
        c = None
        if len(s) >= 1:
            ok = all(cc > 0 and all(alg.atom_by(i).pos for i, e in m) for m, cc in s.items())
            if ok:
                return 1
        return c

    def ipoly(self, p):
        t = []
        for m, c in p.items():
            x = z3.IntVal(int(c))
            for i, e in m:
                for _ in range(int(e)):
                    x = x * self.atom(i)
            t.append(x)
        return z3.Sum(t) if len(t) > 1 else (t[0] if t else z3.IntVal(0))

    def tr(self, f):
        hit = self.e.zcache.get(f)
        if hit is None:
            z = Z3Ctx(self.e)
            hit = self.e.zcache[f] = (z._tr(f), z.av, z.side)
        self.av.update(hit[1])
        self.side.update(hit[2])
        return hit[0]

    def _tr(self, f):
        k = f[0]
        if k == "T":
            return z3.BoolVal(True)
        if k == "F":
            return z3.BoolVal(False)
        if k == "not":
            return z3.Not(self.tr(f[1]))
        if k == "and":
            return z3.And(*[self.tr(x) for x in f[1]])
        if k == "or":
            return z3.Or(*[self.tr(x) for x in f[1]])
        return self.cmp(k, f[1])

    def axioms(self):
        out = []
        seen = set()
        for _ in range(4):
            todo = [i for i in list(self.av) if i not in seen]
            if not todo:
                break
            for i in todo:
                seen.add(i)
                a = alg.atom_by(i)
                v = self.av[i]
                if a.pos and a.kind != "Exp":
                    out.append(v > 0)
                if a.kind == "Exp":
                    out.append(v > 0)
                    m = Rat({a.data[0]: F(1)}, a.data[1])
                    num, signs = self.clear(m)
                    if not signs and not m.den:
                        deep = [j for j in m.atoms()]
                        if len(deep) <= 3:
                            t = self.poly(num)
                            out.append(z3.Implies(t > 0, v > 1))
                            out.append(z3.Implies(t < 0, v < 1))
                            out.append(z3.Implies(t == 0, v == 1))
                            if len(deep) == 1:
                                out.append(v >= 1 + t)
                    elif len(m.atoms()) <= 3:
                        out.append(z3.Implies(self.tr(f_cmp("lt", alg.neg(m))), v > 1))
                        out.append(z3.Implies(self.tr(f_cmp("lt", m)), v < 1))
                elif a.kind == "Log" and alg.as_const(a.data) is not None:
                    lo, hi = log_bounds(alg.as_const(a.data))
                    out.append(v > z3.RealVal(str(lo)))
                    out.append(v < z3.RealVal(str(hi)))
                elif a.kind == "Log":
                    num, signs = self.clear(a.data)
                    if not signs and not a.data.den:
                        t = self.poly(num)
                        dn, _ = self.clear(alg.sub(a.data, alg.ONE))
                        if not any(e < 0 for m in a.data.num for i2, e in m):
                            out.append(z3.Implies(t > 1, v > 0))
                            out.append(z3.Implies(z3.And(t < 1, t > 0), v < 0))
                            out.append(z3.Implies(t == 1, v == 0))
                elif a.kind == "App" and a.data[0] == "floor":
                    x = a.data[1][0]
                    r1 = alg.sub(alg.from_atom(a), x)
                    out.append(self.tr(f_cmp("le", r1)))
                    out.append(self.tr(f_cmp("lt", alg.sub(alg.sub(x, alg.ONE), alg.from_atom(a)))))
                fs = self.e.fcache.get(i)
                if fs is None:
                    fs = self.e.fcache[i] = [g for fact in self.e.facts for g in fact(a) if g != T]
                for g in fs:
                    out.append(self.tr(g))
        # functional/monotone facts for pairs
        apps = [alg.atom_by(i) for i in self.av if alg.atom_by(i).kind == "App"]
        pfs = getattr(self.e, "pair_facts", [])
        if pfs:
            for x in apps:
                for y in apps:
                    if x is not y:
                        gs = self.e.fcache.get((x.idx, y.idx))
                        if gs is None:
                            gs = self.e.fcache[(x.idx, y.idx)] = [g for pf in pfs for g in pf(x, y) if g != T]
                        for g in gs:
                            out.append(self.tr(g))
        sums = [alg.atom_by(i) for i in self.av if alg.atom_by(i).kind in ("PS", "PI")]
        if sums and len(sums) <= 8 and not self.e.in_sums:
            self.e.in_sums = True
            try:
                for x in sums:
                    for y in [z for z in sums if z is not x and z.kind == x.kind and z.data[0] == x.data[0]] + [None]:
                        hi = x.data[1]
                        lo = y.data[1] if y is not None else alg.ZERO
                        if y is not None and alg.as_const(lo) == 0 or not self.e.sum_positive(x, lo, hi):
                            continue
                        dv = self.av[x.idx] - (self.av[y.idx] if y is not None else 0)
                        out.append(z3.Implies(self.tr(f_cmp("lt", alg.sub(lo, hi))), dv > 0))
                        if y is None:
                            out.append(z3.Implies(self.tr(f_cmp("eq", alg.sub(lo, hi))), dv == 0))
                        if x.kind == "PS":
                            # the first term split off the sum
                            first = alg.subst(x.data[0], {alg._bv(): lo})
                            if first.atoms() <= set(self.av) | {j for j in first.atoms()
                                                                if alg.atom_by(j).kind == "Exp"}:
                                num, signs = self.clear(alg.sub(alg.sub(alg.from_atom(x), alg.from_atom(y) if y is not None
                                                                        else alg.ZERO), first))
                                if not signs:
                                    out.append(z3.Implies(self.tr(f_cmp("lt", alg.sub(alg.add(lo, alg.ONE), hi))),
                                                          self.poly(num) > 0))
            finally:
                self.e.in_sums = False
        exps = [alg.atom_by(i) for i in self.av if alg.atom_by(i).kind == "Exp"]
        if 1 < len(exps) <= 4:
            for x in exps:
                for y in exps:
                    if x is y or x.data[1] or y.data[1]:
                        continue
                    mx, my = Rat({x.data[0]: F(1)}), Rat({y.data[0]: F(1)})
                    if any(e < 0 for m in list(mx.num) + list(my.num) for i, e in m):
                        continue
                    out.append(z3.Implies(self.poly(mx.num) < self.poly(my.num),
                                          self.av[x.idx] < self.av[y.idx]))
        return out + [c for cs in self.side.values() for c in cs]


E = Engine()
alg.POSITIVE = lambda r: E.known_positive(r)


def _sign(r):
    return 1 if E.known_positive(r) else -1 if E.known_positive(alg.neg(r)) else 0


alg.SIGN = _sign


# ------------------------------------------------------------------------------------------------- equality proofs
def path_substs(conds):
    """substitutions implied by equalities on the path: Var := linear term; exp-atom facts"""
    mp = {}
    rep = {}
    # integer sandwich: r1 <= 0, r2 <= 0 and r1 + r2 == 0 give r1 == 0
    ub = []
    for c in conds:
        if c[0] in ("le", "lt") and not c[1].den and alg.is_int(c[1]):
            ub.append(alg.add(c[1], alg.ONE) if c[0] == "lt" else c[1])
    keys = {alg.neg(r).key: r for r in ub}
    conds = list(conds) + [f for f in (f_cmp("eq", r) for r in ub if r.key in keys) if f not in (T, Fa)]
    for rnd in range(4):
        changed = rnd == 0
        for c in conds:
            if c[0] != "eq":
                continue
            r = alg.replace_atoms(alg.subst(c[1], mp), rep) if (mp or rep) else c[1]
            if alg.is_zero(r) or alg.as_const(r) is not None:
                continue
            if r.den:
                r = Rat(r.num)
            # exp(m) - 1 == 0  with single real var m  ->  var := 0
            if len(r.num) == 2 and r.num.get(alg.ONE_M) is not None:
                m = next(k for k in r.num if k != alg.ONE_M)
                if r.num[m] == -r.num[alg.ONE_M] and len(m) == 1:
                    a = alg.atom_by(m[0][0])
                    if a.kind == "Exp" and len(a.data[0]) == 1 and not a.data[1]:
                        (vi, e), = a.data[0]
                        if alg.atom_by(vi).kind == "Var" and e == 1:
                            mp = _compose(mp, vi, alg.ZERO)
                            changed = True
                            continue
            # linear in a variable
            done = False
            cands = sorted({i for m in r.num for i, e in m if alg.atom_by(i).kind == "Var"}, reverse=True)
            for v in cands:
                cc, rest = _lin(r, v)
                if cc is None:
                    continue
                sol = alg.scale(rest, F(-1) / cc)
                if alg.atom_by(v).is_int and not alg.is_int(sol):
                    continue
                mp = _compose(mp, v, sol)
                changed = done = True
                break
            if done or rnd == 0:        # variables first
                continue
            # an uninterpreted atom occurring linearly with constant coefficient
            if not r.den:
                for i in sorted(r.atoms(), reverse=True):
                    if alg.atom_by(i).kind in ("App", "PS", "PI"):
                        hits = [(m, q) for m, q in r.num.items() if any(j == i for j, e in m)]
                        rest = Rat({m: q for m, q in r.num.items() if not any(j == i for j, e in m)})
                        if i in _deep_atoms(rest, set()):
                            continue
                        if len(hits) == 1 and hits[0][0] == ((i, 1),):
                            val = alg.scale(rest, F(-1) / hits[0][1])
                        elif all((i, 1) in m for m, q in hits):
                            co = {tuple(z for z in m if z != (i, 1)): q for m, q in hits}
                            sg = 1 if _all_positive(co) else -1 if _all_positive({m: -q for m, q in co.items()}) else 0
                            if not sg:
                                continue
                            val = alg.neg(alg.div(rest, Rat(co)))
                        else:
                            continue
                        for j in rep:
                            rep[j] = alg.replace_atoms(rep[j], {i: val})
                        rep[i] = val
                        changed = True
                        break
        if not changed:
            break
    return mp, rep


def _compose(mp, v, val):
    val = alg.subst(val, mp)
    if v in val.vars:
        return mp
    out = {k: alg.subst(x, {v: val}) for k, x in mp.items()}
    out[v] = val
    return out


class Verdict:
    def __init__(self, ok, how, detail=""):
        self.ok, self.how, self.detail = ok, how, detail


def prove_eq(a, b, depth=0):
    """prove a == b on the current path"""
    d = alg.sub(rat(a), rat(b))
    if alg.is_zero(d):
        return Verdict(True, "ring")
    conds = E.conds()
    mp, rep = path_substs(conds)
    if mp or rep:
        d = alg.subst(d, mp)
        if rep:
            d = alg.deep_replace(alg.replace_atoms(d, rep), rep)
        if alg.is_zero(d):
            return Verdict(True, "ring+path")
    # unique integer values implied by the path (x <= 3 and x >= 3)
    d1 = alg.close_forms(d, lambda r: E.known_nonzero(alg.subst(r, mp)))
    if alg.is_zero(d1):
        return Verdict(True, "ring+geometric")
    if d1 is not d and d1.key != d.key:
        d = d1
    d = _explog(d)
    if alg.is_zero(d):
        return Verdict(True, "ring+geometric")
    # equal arguments of applications / bounds by linear integer reasoning
    d2 = merge_equal_atoms(d)
    if alg.is_zero(d2):
        return Verdict(True, "ring+z3")
    try:
        if E.check(f_not(f_cmp("eq", d2)), timeout=2500) == "unsat":
            return Verdict(True, "z3")
    except Unsupported:
        pass
    if depth < 2:
        # an integer with at most three possible values on this path
        for v in sorted(i for i in _deep_atoms(d2, set()) if alg.atom_by(i).kind == "Var" and alg.atom_by(i).is_int):
            a = alg.from_atom(alg.atom_by(v))
            lo = next((c for c in (0, 1, 2) if E.prove(f_and([f_cmp("le", alg.sub(alg.const(c), a)),
                                                              f_cmp("le", alg.sub(a, alg.const(c + 2)))]))), None)
            if lo is None:
                continue
            for c in range(lo, lo + 3):
                f = f_cmp("eq", alg.sub(a, alg.const(c)))
                if f == Fa or not E.feasible(f):
                    continue
                E.frames[-1].conds.append(f)
                try:
                    ok = prove_eq(wrap(alg.subst(d2, {v: alg.const(c)})), 0, depth + 1).ok
                finally:
                    E.frames[-1].conds.pop()
                if not ok:
                    return Verdict(False, "undecided", alg.show(d2)[:1500])
            return Verdict(True, "ring+cases")
    return Verdict(False, "undecided", alg.show(d2)[:1500])


def _explog(d):
    """exp(log p) = p: where a fractional power of p = c*v + r occurs, write v as (p - r)/c"""
    for i in sorted(d.atoms()):
        a = alg.atom_by(i)
        if a.kind != "Exp" or a.data[1] or len(a.data[0]) != 1 or a.data[0][0][1] != 1:
            continue
        lg = alg.atom_by(a.data[0][0][0])
        if lg.kind != "Log" or lg.data.den:
            continue
        for v in sorted(lg.data.atoms()):
            c, rest = _lin(lg.data, v)
            if c is not None and alg.atom_by(v).kind == "Var" and v in d.atoms():
                d = alg.replace_atoms(d, {v: alg.scale(alg.sub(alg.from_atom(a), rest), 1 / F(c))})
                break
    return d


def merge_equal_atoms(d):
    """ask z3 which argument tuples of equal-named atoms coincide, and which integer vars are pinned"""
    for _ in range(6):
        ints = [i for i in _deep_atoms(d, set()) if alg.atom_by(i).kind == "Var" and alg.atom_by(i).is_int]
        mp = {}
        if len(ints) <= 12:
            pairs = [(i, j) for i in ints for j in ints if i < j]
            for i in ints:
                for c in (0, 1):
                    if E.prove(f_cmp("eq", alg.sub(alg.from_atom(alg.atom_by(i)), alg.const(c)))):
                        mp[i] = alg.const(c)
                        break
            if not mp:
                for i, j in pairs[:30]:
                    a, b = alg.from_atom(alg.atom_by(i)), alg.from_atom(alg.atom_by(j))
                    if E.prove(f_cmp("eq", alg.sub(a, b))):
                        mp[j] = a
                        break
        if mp:
            d = alg.subst(d, mp)
            continue
        sums = [alg.atom_by(i) for i in d.atoms() if alg.atom_by(i).kind in ("PS", "PP")]
        for u in {a.data[1] for a in sums} if len(sums) <= 4 else ():
            for c in range(4):                  # bounds determined on this path
                if E.prove(f_cmp("eq", alg.sub(u, alg.const(c)))):
                    mp.update({a.idx: alg.prefix(a.kind, a.data[0], alg.const(c)) for a in sums if a.data[1] == u})
        if mp:
            d = alg.replace_atoms(d, mp)
            continue
        groups = {}
        for i in d.atoms():
            a = alg.atom_by(i)
            if a.kind in ("PS", "PI", "PP"):
                groups.setdefault((a.kind, a.data[0]), []).append((i, (a.data[1],)))
            elif a.kind == "App":
                groups.setdefault((a.kind, a.data[0], len(a.data[1])), []).append((i, a.data[1]))
        rep = {}
        for g in groups.values():
            if len(g) > 8:
                continue
            for x in range(len(g)):
                for y in range(x + 1, len(g)):
                    if g[y][0] in rep or g[x][0] in rep:
                        continue
                    eqs = [f_cmp("eq", alg.sub(p, q)) for p, q in zip(g[x][1], g[y][1])]
                    f = f_and(eqs)
                    if f != Fa and E.prove(f):
                        rep[g[y][0]] = alg.from_atom(alg.atom_by(g[x][0]))
        if not rep:
            return d
        d = alg.replace_atoms(d, rep)
        if alg.is_zero(d):
            return d
    return d
