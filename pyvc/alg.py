"""Exact algebra for verification conditions.

Terms are rational functions over *atoms*; every term is kept in a canonical form so that two terms that are
equal modulo the rules below are structurally equal, and `a == b` is decided by `is_zero(a - b)`.

atoms   Var        mathematical integer or real variable
        App        uninterpreted function application f(args)            (lives l(x,s), benefit(x,t), ...)
        Exp        exp(m) for one monomial m  (exp of a sum splits into a product)
        Log        log(p) for one polynomial or atom p
        PS/PI/PP   prefix sum / prefix integral / prefix product of a canonical core up to a bound
                   PS(n+1)-PS(n)=core(n);  d/dy PI(y)=core(y);  PP(n+1)/PP(n)=core(n)

Sums are put in canonical form by shifting the bound variable so that the first uninterpreted application of the
summand is f(..., J, ...), so commutation-function identities (index shifts, splits, telescoping) become syntactic.
Integrals do the same and additionally integrate by parts to remove derivatives of uninterpreted functions.
"""
from fractions import Fraction as F
import math

ONE_M = ()          # empty monomial


class Unsupported(BaseException):
    """the construct is outside the verifier's reach (never reported as a violation)"""


# ----------------------------------------------------------------------------------------------- atoms
class Atom:
    __slots__ = ("kind", "data", "idx", "vars", "is_int", "pos", "name")
    table = {}
    order = []

    def __repr__(self):
        return self.name or show_atom(self)


def _atom(kind, data, vars_, is_int=False, pos=False, name=None):
    key = (kind, data)
    a = Atom.table.get(key)
    if a is None:
        a = Atom()
        a.kind, a.data, a.vars, a.is_int, a.pos, a.name = kind, data, vars_, is_int, pos, name
        a.idx = len(Atom.order)
        Atom.order.append(a)
        Atom.table[key] = a
    return a


def atom_by(idx):
    return Atom.order[idx]


def reset():
    Atom.table.clear()
    Atom.order.clear()


# ----------------------------------------------------------------------------------------------- polynomials
# a polynomial is a dict monomial -> Fraction; a monomial is a sorted tuple of (atom idx, exponent)
def m_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for i, e in b:
        s = d.get(i, 0) + e
        if s == 0:
            del d[i]
        else:
            d[i] = s
    return tuple(sorted(d.items()))


def m_pow(a, n):
    return tuple((i, e * n) for i, e in a) if n != 0 else ONE_M


def p_add(a, b, k=1):
    if not b:
        return a
    d = dict(a)
    for m, c in b.items():
        s = d.get(m, 0) + c * k
        if s == 0:
            d.pop(m, None)
        else:
            d[m] = s
    return d


def p_mul(a, b):
    if len(a) > len(b):
        a, b = b, a
    d = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m_mul(m1, m2)
            s = d.get(m, 0) + c1 * c2
            if s == 0:
                d.pop(m, None)
            else:
                d[m] = s
    if len(d) > 60000:
        raise Unsupported("polynomial too large")
    return d


def p_key(p):
    return tuple(sorted(p.items()))


def p_scale(p, m, c):
    return {m_mul(k, m): v * c for k, v in p.items()}


def p_atoms(p):
    s = set()
    for m in p:
        for i, _ in m:
            s.add(i)
    return s


def p_const(p):
    if not p:
        return F(0)
    if len(p) == 1 and ONE_M in p:
        return p[ONE_M]
    return None


def _min_exps(p):
    it = iter(p)
    first = dict(next(it))
    for m in it:
        d = dict(m)
        for i in list(first):
            e = d.get(i, 0)
            if e < first[i]:
                first[i] = e
        for i, e in d.items():
            if i not in first and e < 0:
                first[i] = e
    return tuple(sorted((i, e) for i, e in first.items() if e != 0))


def _lead(p):
    """leading monomial in lex order over atoms (largest index first)"""
    best = None
    bk = None
    for m in p:
        k = tuple(sorted(((i, e) for i, e in m), reverse=True))
        if best is None or _lex_gt(k, bk):
            best, bk = m, k
    return best


def _lex_gt(a, b):
    # compare exponent vectors lexicographically, atoms in decreasing index order; absent = 0
    ia = ib = 0
    while ia < len(a) and ib < len(b):
        if a[ia][0] == b[ib][0]:
            if a[ia][1] != b[ib][1]:
                return a[ia][1] > b[ib][1]
            ia += 1
            ib += 1
        elif a[ia][0] > b[ib][0]:
            return a[ia][1] > 0
        else:
            return b[ib][1] < 0
    if ia < len(a):
        return a[ia][1] > 0
    if ib < len(b):
        return b[ib][1] < 0
    return False


def p_sqrt(p):
    """q with q*q == p, or None (p primitive, at most a few dozen terms)"""
    if not 3 <= len(p) <= 60:
        return None
    lm = _lead(p)
    c = F(p[lm])
    sgn = 1
    if c < 0:
        return None
    rn, rd = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if rn * rn != c.numerator or rd * rd != c.denominator:
        return None
    if any(F(e).denominator != 1 or int(e) % 2 for i, e in lm):
        return None
    m0 = tuple((i, e / 2 if F(e / 2).denominator != 1 else int(e / 2)) for i, e in lm)
    c0 = F(rn, rd)
    q = {m0: c0}
    inv = m_pow(m0, -1)
    rest = p_add(p, p_mul(q, q), -1)
    for _ in range(12):
        if not rest:
            return q
        l2 = _lead(rest)
        m = m_mul(l2, inv)
        if any(e < 0 for i, e in m) or m in q:
            return None
        t = {m: F(rest[l2]) / (2 * c0)}
        # rest -= 2 q t + t^2
        rest = p_add(rest, p_add(p_mul({k: 2 * v for k, v in q.items()}, t), p_mul(t, t)), -1)
        q = p_add(q, t)
    return None


def p_normal(p):
    """(content monomial, content coefficient, primitive part) of a non-zero polynomial"""
    mn = _min_exps(p)
    inv = m_pow(mn, -1)
    q = {m_mul(m, inv): c for m, c in p.items()} if mn else p
    lc = q[_lead(q)]
    if lc != 1:
        q = {m: c / lc for m, c in q.items()}
    return mn, lc, q


def p_divexact(p, f):
    """p / f when exact and both primitive-normalised in exponents, else None"""
    if not p:
        return {}
    fa = p_atoms(f)
    pa = p_atoms(p)
    if not fa <= pa:
        return None
    mn = _min_exps(p)
    inv = m_pow(mn, -1)
    rem = {m_mul(m, inv): c for m, c in p.items()}
    lf = _lead(f)
    cf = f[lf]
    lfd = dict(lf)
    q = {}
    steps = 0
    while rem:
        steps += 1
        if steps > 400:
            return None
        lm = _lead(rem)
        d = dict(lm)
        for i, e in lfd.items():
            if d.get(i, 0) < e:
                return None
            d[i] = d.get(i, 0) - e
        qm = tuple(sorted((i, e) for i, e in d.items() if e != 0))
        qc = rem[lm] / cf
        q[qm] = q.get(qm, 0) + qc
        for m, c in f.items():
            mm = m_mul(m, qm)
            s = rem.get(mm, 0) - c * qc
            if s == 0:
                rem.pop(mm, None)
            else:
                rem[mm] = s
    return {m_mul(m, mn): c for m, c in q.items()} if mn else q


# ----------------------------------------------------------------------------------------------- rationals
class Rat:
    """num / prod(factor**power); num is a Laurent polynomial, factors are primitive non-monomial polynomials"""
    __slots__ = ("num", "den", "_key", "_vars")

    def __init__(self, num, den=()):
        self.num = num
        self.den = den          # tuple of (p_key, power) sorted
        self._key = None
        self._vars = None

    @property
    def key(self):
        if self._key is None:
            self._key = (p_key(self.num), self.den)
        return self._key

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return isinstance(o, Rat) and self.key == o.key

    @property
    def vars(self):
        if self._vars is None:
            s = set()
            for i in self.atoms():
                s |= atom_by(i).vars
            self._vars = frozenset(s)
        return self._vars

    def atoms(self):
        s = p_atoms(self.num)
        for f, _ in self.den:
            for m, _c in f:
                for i, _e in m:
                    s.add(i)
        return s

    def __repr__(self):
        return show(self)


ZERO = Rat({})
ONE = Rat({ONE_M: F(1)})


def const(c):
    if isinstance(c, Rat):
        return c
    if isinstance(c, bool):
        c = int(c)
    if isinstance(c, float):
        if math.isinf(c) or math.isnan(c):
            raise Unsupported("non-finite constant")
        c = F(repr(c))
    c = F(c)
    return Rat({ONE_M: c}) if c else ZERO


def from_atom(a, e=1):
    return Rat({((a.idx, e),): F(1)})


def var(name, is_int=False):
    v = Atom.table.get(("Var", (name, is_int)))
    if v is None:
        v = _atom("Var", (name, is_int), None, is_int, False, name)
        v.vars = frozenset([v.idx])
    return from_atom(v)


def as_const(r):
    if r.den:
        return None
    return p_const(r.num)


def _mk(num, facs):
    """canonical rational from numerator and {factor key: power}"""
    if not num:
        return ZERO
    out = {}
    for fk, n in facs.items():
        if n == 0:
            continue
        f = dict(fk)
        while n > 0 and len(num) < 3000:
            q = p_divexact(num, f)
            if q is None:
                break
            num = q
            n -= 1
        if n < 0:
            for _ in range(-n):
                num = p_mul(num, f)
            n = 0
        if n:
            out[fk] = n
    return Rat(num, tuple(sorted(out.items())))


def add(a, b, k=1):
    if not b.num:
        return a
    if not a.num:
        return b if k == 1 else scale(b, k)
    if a.den == b.den:
        num = p_add(a.num, b.num, k)
        return _mk(num, dict(a.den)) if a.den else Rat(num)
    da, db = dict(a.den), dict(b.den)
    lcm = dict(da)
    for f, n in db.items():
        lcm[f] = max(lcm.get(f, 0), n)
    na, nb = a.num, b.num
    for f, n in lcm.items():
        for _ in range(n - da.get(f, 0)):
            na = p_mul(na, dict(f))
        for _ in range(n - db.get(f, 0)):
            nb = p_mul(nb, dict(f))
    return _mk(p_add(na, nb, k), lcm)


def sub(a, b):
    return add(a, b, -1)


def scale(a, c):
    c = F(c)
    if c == 0:
        return ZERO
    return Rat({m: v * c for m, v in a.num.items()}, a.den)


def neg(a):
    return scale(a, -1)


def mul(a, b):
    if not a.num or not b.num:
        return ZERO
    if not a.den and not b.den:
        return Rat(p_mul(a.num, b.num))
    facs = dict(a.den)
    for f, n in b.den:
        facs[f] = facs.get(f, 0) + n
    return _mk(p_mul(a.num, b.num), facs)


def inv(a):
    if not a.num:
        raise ZeroDivisionError("division by zero")
    num = {ONE_M: F(1)}
    for f, n in a.den:
        for _ in range(n):
            num = p_mul(num, dict(f))
    if len(a.num) == 1:
        (m, c), = a.num.items()
        return Rat(p_scale(num, m_pow(m, -1), 1 / c))
    mn, lc, q = p_normal(a.num)
    return _mk(p_scale(num, m_pow(mn, -1), 1 / lc), {p_key(q): 1})


def div(a, b):
    return mul(a, inv(b))


def is_zero(a):
    return not a.num


def is_int(r):
    """provably integer-valued"""
    if r.den:
        return False
    for m, c in r.num.items():
        if c.denominator != 1:
            return False
        for i, e in m:
            if not atom_by(i).is_int or e < 0 or F(e).denominator != 1:
                return False
    return True


# ----------------------------------------------------------------------------------------------- functions
def app(name, *args, is_int=False, pos=False):
    args = tuple(const(a) if not isinstance(a, Rat) else a for a in args)
    vs = frozenset().union(*[a.vars for a in args]) if args else frozenset()
    return from_atom(_atom("App", (name, args), vs, is_int, pos))


def _exp_mono(m, facs):
    if not m and not facs:
        data = (m, facs)
        return _atom("Exp", data, frozenset(), False, True)
    r = Rat({m: F(1)}, facs)
    return _atom("Exp", (m, facs), r.vars, False, True)


def exp(r):
    r = const(r)
    if is_zero(r):
        return ONE
    out = ONE
    for m, c in r.num.items():
        # exp(c * log(a)) = a**c for rational c
        if not r.den and len(m) == 1 and m[0][1] == 1 and atom_by(m[0][0]).kind == "Log":
            arg = atom_by(m[0][0]).data
            out = mul(out, rpow_const(arg, c))
        else:
            a = _exp_mono(m, r.den)
            out = mul(out, from_atom(a, _n(c)))
    return out


def _n(c):
    c = F(c)
    return int(c) if c.denominator == 1 else c


def _primes(n):
    out = {}
    d = 2
    while d * d <= n and d < 2000:
        while n % d == 0:
            out[d] = out.get(d, 0) + 1
            n //= d
        d += 1
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def _log_atom(r):
    a = _atom("Log", r, r.vars, False, False)
    return from_atom(a)


def log(r):
    r = const(r)
    c = as_const(r)
    if c is not None:
        if c <= 0:
            raise ValueError("math domain error")
        out = ZERO
        for p, n in _primes(c.numerator).items():
            out = add(out, scale(_log_atom(const(p)), n))
        for p, n in _primes(c.denominator).items():
            out = add(out, scale(_log_atom(const(p)), -n))
        return out
    out = ZERO
    mn, lc, q = p_normal(r.num)
    if lc < 0:
        lc, q = -lc, {m: -v for m, v in q.items()}
    if lc != 1:
        out = add(out, log(const(lc)))
    sgn = 1
    facs = []
    for i, e in mn:
        a = atom_by(i)
        if a.kind == "Exp":
            m, fs = a.data
            out = add(out, scale(Rat({m: F(1)}, fs), e))
        elif a.pos:
            out = add(out, scale(_log_atom(from_atom(a)), e))
        else:
            facs.append((from_atom(a), F(e)))
    qc = p_const(q)
    if qc is None:
        facs.append((Rat(q), F(1)))
    else:
        sgn = 1 if qc > 0 else -1
        if abs(qc) != 1:
            out = add(out, log(const(abs(qc))))
    for f, n in r.den:
        facs.append((Rat(dict(f)), F(-n)))
    # r > 0: split into logs of factors of known sign, one log for the rest
    rest = []
    for f, e in facs:
        s = 1 if (len(facs) == 1 and sgn == 1) or e.denominator != 1 else SIGN(f)
        if s == 0:
            rest.append((f, e))
        else:
            if s < 0 and int(e) % 2:
                sgn = -sgn
            out = add(out, scale(_log_atom(f if s > 0 else neg(f)), e))
    if len(rest) == 1 and rest[0][1] % 2 == 1:
        f, e = rest[0]
        out = add(out, scale(_log_atom(f if sgn > 0 else neg(f)), e))
    elif rest:
        u = const(sgn)
        for f, e in rest:
            u = mul(u, rpow_const(f, e))
        out = add(out, _log_atom(u))
    return out


SIGN = lambda r: 1          # sign of an expression on the current path (set by the engine)


def rpow_const(b, c):
    """b ** c for rational constant c"""
    c = F(c)
    if c == 0:
        return ONE
    if is_zero(b):
        if c > 0:
            return ZERO
        raise ZeroDivisionError("0 to a negative power")
    if c.denominator == 1:
        n = int(c)
        if n < 0:
            return rpow_const(inv(b), -n)
        if len(b.num) == 1:
            (m, k), = b.num.items()
            return Rat({m_pow(m, n): k ** n}, tuple((f, p * n) for f, p in b.den))
        out = ONE
        base = b
        while n:
            if n & 1:
                out = mul(out, base)
            n >>= 1
            if n:
                base = mul(base, base)
        return out
    if len(b.num) == 1 and not b.den:
        (m, k), = b.num.items()
        if k > 0:
            out = Rat({tuple((i, _n(e * c)) for i, e in m): F(1)})
            if k != 1:
                root = _exact_root(k, c)
                out = mul(out, const(root)) if root is not None else mul(out, exp(scale(log(const(k)), c)))
            return out
    # (polynomial) ** (p/q): opaque positive atom, consistent with exp(c*log)
    n = c.numerator // c.denominator
    frac = c - n
    a = _exp_mono(((_single(log(b)), 1),), ()) if _single(log(b)) is not None else None
    if a is not None:
        return mul(rpow_const(b, n), from_atom(a, _n(frac)))
    return mul(rpow_const(b, n), exp_nolog(scale(log(b), frac)))


def _single(r):
    if not r.den and len(r.num) == 1:
        (m, c), = r.num.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return None


def exp_nolog(r):
    out = ONE
    for m, c in r.num.items():
        if not r.den and len(m) == 1 and m[0][1] == 1 and atom_by(m[0][0]).kind == "Log":
            arg = atom_by(m[0][0]).data
            if _single(arg) is not None:
                out = mul(out, Rat({((_single(arg), _n(c)),): F(1)}))
                continue
        a = _exp_mono(m, r.den)
        out = mul(out, from_atom(a, _n(c)))
    return out


def _exact_root(k, c):
    k = F(k)
    try:
        q = c.denominator
        def iroot(n):
            r = round(n ** (1.0 / q))
            for t in (r - 1, r, r + 1):
                if t >= 0 and t ** q == n:
                    return t
            return None
        a, b = iroot(k.numerator), iroot(k.denominator)
        if a is None or b is None:
            return None
        return F(a, b) ** c.numerator
    except OverflowError:
        return None


def rpow(b, e):
    """b ** e (b > 0 is the caller's obligation unless e is an integer constant)"""
    b, e = const(b), const(e)
    c = as_const(e)
    if c is not None:
        return rpow_const(b, c)
    if is_zero(b):
        return ZERO          # caller has shown e > 0
    cb = as_const(b)
    if cb == 1:
        return ONE
    # split integer constant part of the exponent so b**(t+1) = b**t * b
    c0 = e.num.get(ONE_M, F(0)) if not e.den else F(0)
    k = math.floor(c0) if c0 else 0
    rest = sub(e, const(k)) if k else e
    out = exp(mul(rest, log(b)))
    return mul(out, rpow_const(b, k)) if k else out


def floor(r, frac_in_unit=None):
    """floor with the provably-integer part stripped; frac_in_unit(r) -> integer value if provable"""
    r = const(r)
    c = as_const(r)
    if c is not None:
        return const(math.floor(c))
    if is_int(r):
        return r
    ip = {m: F(v) for m, v in r.num.items() if not r.den and v.denominator == 1 and all(
        atom_by(i).is_int and e > 0 and F(e).denominator == 1 for i, e in m)}
    integer = Rat(ip) if ip else ZERO
    rest = sub(r, integer)
    if is_zero(rest):
        return integer
    c = as_const(rest)
    if c is not None:
        return add(integer, const(math.floor(c)))
    return add(integer, app("floor", rest, is_int=True))


# ----------------------------------------------------------------------------------------------- substitution
def subst(r, mp):
    """mp: {atom idx of a Var: Rat}"""
    if not mp or not (r.vars & mp.keys()):
        return r
    cache = {}
    return _subst(r, mp, cache)


def deep_replace(r, rep):
    """replace atoms (rep: atom idx -> Rat) wherever they occur, also inside exponents, cores and arguments"""
    vs = set().union(*[atom_by(i).vars for i in rep])
    return _subst(r, {v: from_atom(atom_by(v)) for v in vs}, dict(rep))


def _subst(r, mp, cache):
    if not (r.vars & mp.keys()):
        return r
    out = _subst_poly(r.num, mp, cache)
    for f, n in r.den:
        d = _subst_poly(dict(f), mp, cache)
        out = mul(out, rpow_const(inv(d), n))
    return out


def _subst_poly(p, mp, cache):
    keep = {}
    out = ZERO
    for m, c in p.items():
        hit = [(i, e) for i, e in m if atom_by(i).vars & mp.keys()]
        if not hit:
            keep[m] = keep.get(m, 0) + c
            continue
        t = Rat({tuple((i, e) for i, e in m if not (atom_by(i).vars & mp.keys())): c})
        for i, e in hit:
            t = mul(t, rpow_const(_subst_atom(i, mp, cache), e))
        out = add(out, t)
    return add(out, Rat(keep)) if keep else out


def _subst_atom(i, mp, cache):
    if i in cache:
        return cache[i]
    a = atom_by(i)
    if a.kind == "Var":
        r = mp.get(i)
        r = from_atom(a) if r is None else r
    elif a.kind == "App":
        name, args = a.data
        na = tuple(_subst(x, mp, cache) for x in args)
        r = rebuild_app(name, na, a)
    elif a.kind == "Exp":
        m, facs = a.data
        r = None
        for j, e in m:          # c*log(p) where p becomes 0:  0**c = 0 for c > 0
            if e == 1 and atom_by(j).kind == "Log" and is_zero(_subst(atom_by(j).data, mp, cache)):
                if not POSITIVE(_subst(Rat({tuple(x for x in m if x[0] != j): F(1)}, facs), mp, cache)):
                    raise Unsupported("power of zero")
                r = ZERO
        if r is None:
            r = exp(_subst(Rat({m: F(1)}, facs), mp, cache))
    elif a.kind == "Log":
        r = log(_subst(a.data, mp, cache))
    elif a.kind in ("PS", "PI", "PP"):
        core, up = a.data
        bad = core.vars & mp.keys()
        if bad:
            ncore = _subst(core, mp, cache)
            r = _prefix_general(a.kind, ncore, _subst(up, mp, cache))
        else:
            r = prefix(a.kind, core, _subst(up, mp, cache))
    else:
        raise Unsupported(a.kind)
    cache[i] = r
    return r


POSITIVE = lambda r: False      # set by sym: is r positive on the current path

APP_RULES = {}      # name -> function(args) -> Rat or None   (interpretations of ghost functions)


def rebuild_app(name, args, a):
    if name == "floor":
        return floor(args[0])
    rule = APP_RULES.get(name)
    if rule is not None:
        r = rule(*args)
        if r is not None:
            return r
    return app(name, *args, is_int=a.is_int, pos=a.pos)


# ----------------------------------------------------------------------------------------------- calculus
def diff(r, v):
    """derivative with respect to Var idx v"""
    if v not in r.vars:
        return ZERO
    out = _diff_poly(r.num, v)
    for f, n in r.den:
        out = mul(out, rpow_const(Rat(dict(f)), -n))
    # quotient rule: d(num)/den - num * sum n f'/f / den
    for f, n in r.den:
        fr = Rat(dict(f))
        df = _diff_poly(dict(f), v)
        if not is_zero(df):
            out = sub(out, mul(r, scale(div(df, fr), n)))
    return out


def _diff_poly(p, v):
    out = ZERO
    for m, c in p.items():
        for j, (i, e) in enumerate(m):
            if v in atom_by(i).vars:
                rest = m[:j] + m[j + 1:]
                t = Rat({m_mul(rest, ((i, e - 1),) if e != 1 else ONE_M): c * e})
                out = add(out, mul(t, _diff_atom(i, v)))
    return out


def _diff_atom(i, v):
    a = atom_by(i)
    if a.kind == "Var":
        return ONE if i == v else ZERO
    if a.kind == "Exp":
        m, facs = a.data
        return mul(from_atom(a), diff(Rat({m: F(1)}, facs), v))
    if a.kind == "Log":
        return div(diff(a.data, v), a.data)
    if a.kind == "App":
        name, args = a.data
        if name == "floor":
            raise Unsupported("derivative of floor")
        out = ZERO
        for k, x in enumerate(args):
            d = diff(x, v)
            if not is_zero(d):
                out = add(out, mul(d, app(f"D{k}:{name}", *args)))
        return out
    if a.kind == "PI":
        core, up = a.data
        J = _bv()
        if v in core.vars:
            raise Unsupported("derivative under the integral")
        return mul(subst(core, {J: up}), diff(up, v))
    raise Unsupported("derivative of " + a.kind)


# ----------------------------------------------------------------------------------------------- sums, integrals
def _bvr():
    return var("#J", False)


def _bv():
    return next(iter(_bvr().num))[0][0]


def _linear_in(r, v):
    """(coef, rest) if r = coef*v + rest with constant coef and v-free rest"""
    if r.den:
        for f, _ in r.den:
            if v in Rat(dict(f)).vars:
                return None
    coef = F(0)
    rest = {}
    for m, c in r.num.items():
        if any(v in atom_by(i).vars for i, _ in m):
            if m == ((v, 1),) and not r.den:
                coef += c
            else:
                return None
        else:
            rest[m] = c
    return coef, Rat(rest, r.den)


def _stepped(x, v):
    """x = c*v + rest, c a monomial such as 1/m: shift by the whole number of steps in rest"""
    if x.den:
        return None
    c, rest = None, {}
    for m, q in x.num.items():
        hit = [e for i, e in m if v in atom_by(i).vars]
        if not hit:
            rest[m] = q
        elif c is None and (v, 1) in m and len(hit) == 1:
            c = Rat({tuple(y for y in m if y[0] != v): q})
        else:
            return None
    if c is None:
        return None
    steps = div(Rat(rest), c)
    if steps.den:
        return None
    off = Rat({m: q for m, q in steps.num.items() if is_int(Rat({m: q}))})
    return F(1), off


def _anchor(core, v, cont):
    """find the canonical shift: returns (sign, offset) so that v -> sign*(J - offset)"""
    cands = []
    for i in core.atoms():
        a = atom_by(i)
        if a.kind == "Var" or v not in a.vars:
            continue
        if a.kind == "App":
            name, args = a.data
            if name == "floor":
                continue
            for k, x in enumerate(args):
                if v in x.vars:
                    lin = _linear_in(x, v)
                    if not (lin and abs(lin[0]) == 1):
                        lin = _stepped(x, v)
                    if lin and abs(lin[0]) == 1:
                        sig = (0, name.split(":")[-1], len(name), k, tuple(y.key for y in args[:k]),
                               tuple(y.key for y in args[k + 1:]) if not any(v in y.vars for y in args[k + 1:]) else ())
                        cands.append((sig, lin))
        elif a.kind == "Log":
            lin = _linear_in(a.data, v)
            if lin and abs(lin[0]) == 1:
                cands.append(((1, "log", 0, 0, (), ()), lin))
        elif a.kind == "Exp" and a.data[1] == ():
            for j, _e in a.data[0]:
                b = atom_by(j)
                if b.kind == "Log" and v in b.vars:
                    lin = _linear_in(b.data, v)
                    if lin and abs(lin[0]) == 1:
                        cands.append(((1, "log", 0, 0, (), ()), lin))
    if not cands:
        return None
    try:
        cands.sort(key=lambda t: (t[0][0], t[0][1], t[0][2], t[0][3], repr(t[0][4]), repr(t[0][5]), repr(t[1][1])))
        # several applications of the same function at different offsets: take the smallest constant offset
        top = cands[0][0][:4]
        same = [c for c in cands if c[0][:4] == top]
        best = same[0]
        for c in same[1:]:
            d = as_const(sub(c[1][1], best[1][1]))
            if d is not None and c[1][0] == best[1][0] and d < 0:
                best = c
        lin = best[1]
    except TypeError:
        lin = cands[0][1]
    return lin


def split_dep(term, v):
    """split a one-monomial rational into (v-free part, v-dependent part)"""
    (m, c), = term.num.items()
    a = tuple((i, e) for i, e in m if v not in atom_by(i).vars)
    b = tuple((i, e) for i, e in m if v in atom_by(i).vars)
    da = tuple((f, n) for f, n in term.den if v not in Rat(dict(f)).vars)
    db = tuple((f, n) for f, n in term.den if v in Rat(dict(f)).vars)
    return Rat({a: c}, da), Rat({b: F(1)}, db)


def split_exp_terms(r):
    return [Rat({m: c}, r.den) for m, c in r.num.items()]


def summation(body, v, lo, hi):
    """sum_{v=lo}^{hi-1} body   (v: Var idx, requires lo <= hi)"""
    out = ZERO
    for term in split_exp_terms(body):
        out = add(out, _sum_term(term, v, lo, hi))
    return out


def _sum_term(term, v, lo, hi, kind="PS"):
    cst, dep = split_dep(term, v)
    if v not in dep.vars:
        return mul(mul(cst, dep), sub(hi, lo))
    J = _bvr()
    lin = _anchor(dep, v, kind == "PI")
    if lin is None:
        sgn, off = F(1), ZERO
    else:
        sgn, off = lin
    # new variable J = sgn*v + off  ->  v = sgn*(J - off)
    if sgn == 1:
        nlo, nhi = add(lo, off), add(hi, off)
    elif kind == "PS":
        nlo, nhi = add(sub(off, hi), ONE), add(sub(off, lo), ONE)
    else:
        nlo, nhi = sub(off, hi), sub(off, lo)
    core = subst(dep, {v: scale(sub(J, off), sgn)})
    out = ZERO
    j = _bv()
    for t in split_exp_terms(core):
        c2, d2 = split_dep(t, j)
        if j not in d2.vars:
            out = add(out, mul(mul(c2, d2), sub(nhi, nlo)))
        else:
            out = add(out, mul(c2, sub(prefix(kind, d2, nhi), prefix(kind, d2, nlo))))
    return mul(cst, out)


UNFOLD_MAX = 40


def prefix(kind, core, up):
    """PS/PI/PP at bound `up`, canonical; core is over the bound variable #J"""
    if kind == "PI":
        return _prefix_int(core, up)
    j = _bv()
    if kind == "PS":
        closed = _poly_antidiff(core)
        if closed is not None:
            return subst(closed, {j: up})
    # strip the integer constant of the bound
    c0 = up.num.get(ONE_M, F(0)) if not up.den else F(0)
    k = math.floor(c0)
    if as_const(up) is not None:
        k = int(as_const(up)) if F(as_const(up)).denominator == 1 else k
    base = sub(up, const(k)) if k else up
    if abs(k) > UNFOLD_MAX:         # near a round number, strip the difference
        r = k - 100 * round(k / 100)
        k = r if abs(r) <= UNFOLD_MAX else 0
        base = sub(up, const(k)) if k else up
    atom = _atom(kind, (core, base), (core.vars - {j}) | base.vars)
    out = from_atom(atom)
    if kind == "PS":
        if as_const(base) == 0:
            out = ZERO
        for t in range(abs(k)):
            if k > 0:
                out = add(out, subst(core, {j: add(base, const(t))}))
            else:
                out = sub(out, subst(core, {j: sub(base, const(t + 1))}))
    else:
        if as_const(base) == 0:
            out = ONE
        for t in range(abs(k)):
            if k > 0:
                out = mul(out, subst(core, {j: add(base, const(t))}))
            else:
                out = div(out, subst(core, {j: sub(base, const(t + 1))}))
    return out


_bern = {}


def _poly_antidiff(core):
    """antidifference polynomial of J**d (None if core is not a power of J)"""
    j = _bv()
    if core.den or len(core.num) != 1:
        return None
    (m, c), = core.num.items()
    if len(m) != 1 or m[0][0] != j or m[0][1] < 0 or F(m[0][1]).denominator != 1:
        return None
    d = int(m[0][1])
    # sum_{i=0}^{n-1} i^d  by undetermined recursion: (n^{d+1} - sum_{k<d} C(d+1,k) S_k)/(d+1)
    def S(dd):
        if dd in _bern:
            return _bern[dd]
        out = {dd + 1: F(1)}
        for k in range(dd):
            co = math.comb(dd + 1, k)
            for e, q in S(k).items():
                out[e] = out.get(e, F(0)) - co * q
        out = {e: q / (dd + 1) for e, q in out.items() if q}
        _bern[dd] = out
        return out
    return Rat({((j, e),): q * c for e, q in S(d).items()})


def integral(body, v, lo, hi):
    out = ZERO
    for term in split_exp_terms(body):
        out = add(out, _sum_term(term, v, lo, hi, "PI"))
    return out


def _is_D(a):
    return a.kind == "App" and a.data[0].startswith("D")


def _prefix_int(core, up):
    """antiderivative of core (over #J) evaluated at up; canonical"""
    j = _bv()
    # J**d
    if not core.den and len(core.num) == 1:
        (m, c), = core.num.items()
        if len(m) == 1 and m[0][0] == j and F(m[0][1]) != -1:
            d = m[0][1]
            return scale(rpow_const(up, d + 1), c / F(d + 1))
        # integrate by parts:  g * D(f)(J) = (g f)' - g' f
        for idx, (i, e) in enumerate(m):
            a = atom_by(i)
            if e == 1 and _is_D(a):
                name, args = a.data
                k = int(name[1:name.index(":")])
                fname = name[name.index(":") + 1:]
                lin = _linear_in(args[k], j) if j in args[k].vars else None
                if lin and lin[0] == 1 and not any(j in x.vars for t, x in enumerate(args) if t != k):
                    f = app(fname, *args)
                    if len(f.num) != 1 or f.den or as_const(f) is not None:
                        break
                    g = Rat({m[:idx] + m[idx + 1:]: c})
                    fa = next(iter(f.num))[0][0]
                    if any(j in atom_by(i2).vars and i2 != fa and atom_by(i2).kind not in ("Var", "Exp")
                           for i2 in g.atoms()):
                        break           # not elementary apart from f: leave the integral as it is
                    if fa in g.atoms():
                        n = dict(m).get(fa, 0)
                        if F(n) == -1:
                            raise Unsupported("log integral")
                        h = Rat({tuple(t for t in m[:idx] + m[idx + 1:] if t[0] != fa): c})
                        ff = scale(rpow_const(f, n + 1), F(1) / (n + 1))
                        dg = diff(h, j)
                        out = subst(mul(h, ff), {j: up})
                        rest = mul(dg, ff)
                    else:
                        dg = diff(g, j)
                        out = subst(mul(g, f), {j: up})
                        rest = mul(dg, f)
                    for t in split_exp_terms(rest):
                        c2, d2 = split_dep(t, j)
                        if j not in d2.vars:
                            out = sub(out, mul(mul(c2, d2), up))
                        else:
                            out = sub(out, mul(c2, _prefix_int(d2, up)))
                    return out
    if as_const(up) == 0 and not any(atom_by(i).kind == "Log" for i in core.atoms()):
        return ZERO
    atom = _atom("PI", (core, up), (core.vars - {j}) | up.vars)
    return from_atom(atom)


def product(body, v, lo, hi):
    """prod_{v=lo}^{hi-1} body, lo <= hi"""
    if len(body.num) == 1:
        (m, c), = body.num.items()
        pieces = [(from_atom(atom_by(i)), e) for i, e in m]
        if c != 1:
            pieces.append((const(c), 1))
    else:
        mn, lc, q = p_normal(body.num)
        pieces = [(from_atom(atom_by(i)), e) for i, e in mn]
        if lc != 1:
            pieces.append((const(lc), 1))
        pieces.append((Rat(q), 1))
    for f, n in body.den:
        pieces.append((Rat(dict(f)), -n))
    out = ONE
    for p, e in pieces:
        if v not in p.vars:
            out = mul(out, rpow(rpow_const(p, e), sub(hi, lo)))
            continue
        a = _single(p)
        if a is not None and atom_by(a).kind == "Exp":
            mm, facs = atom_by(a).data
            out = mul(out, exp(scale(summation(Rat({mm: F(1)}, facs), v, lo, hi), e)))
            continue
        J = _bvr()
        lin = _anchor(p, v, False)
        sgn, off = lin if lin else (F(1), ZERO)
        if sgn == 1:
            nlo, nhi = add(lo, off), add(hi, off)
        else:
            nlo, nhi = add(sub(off, hi), ONE), add(sub(off, lo), ONE)
        core = subst(p, {v: scale(sub(J, off), sgn)})
        out = mul(out, rpow_const(div(prefix("PP", core, nhi), prefix("PP", core, nlo)), e))
    return out


def _prefix_general(kind, core, up):
    """prefix atom whose core changed by substitution: re-canonicalise through a definite sum from 0"""
    j = _bv()
    t = var("#k", kind != "PI")
    tv = next(iter(t.num))[0][0]
    body = subst(core, {j: t})
    # an antidifference is determined up to a constant: use the one vanishing at 0
    if kind == "PS":
        return summation(body, tv, ZERO, up)
    if kind == "PI":
        return integral(body, tv, ZERO, up)
    return product(body, tv, ZERO, up)


# ----------------------------------------------------------------------------------------------- closed forms
def close_forms(r, nonzero):
    """replace PS/PI atoms with geometric/exponential cores by closed forms where nonzero(rate) is proved.
    Applied to both sides of an equation only at the end of a proof."""
    for _ in range(4):
        todo = {}
        for i in r.atoms():
            a = atom_by(i)
            if a.kind in ("PS", "PI"):
                c = _closed(a, nonzero)
                if c is not None:
                    todo[i] = c
        if not todo:
            return r
        r = replace_atoms(r, todo)
    return r


def replace_atoms(r, mp):
    def rp(p):
        out = ZERO
        keep = {}
        for m, c in p.items():
            hit = [(i, e) for i, e in m if i in mp]
            if not hit:
                keep[m] = keep.get(m, 0) + c
                continue
            t = Rat({tuple(x for x in m if x[0] not in mp): c})
            for i, e in hit:
                t = mul(t, rpow_const(mp[i], e))
            out = add(out, t)
        return add(out, Rat(keep)) if keep else out
    out = rp(r.num)
    for f, n in r.den:
        out = mul(out, rpow_const(inv(rp(dict(f))), n))
    return out


def _closed(a, nonzero):
    j = _bv()
    core, up = a.data
    if core.den or len(core.num) != 1:
        return None
    (m, c), = core.num.items()
    d = 0
    rate = ZERO
    logs = []
    for i, e in m:
        b = atom_by(i)
        if i == j:
            if F(e).denominator != 1 or (e < 0 and a.kind == "PS"):
                return None
            d = int(e)
        elif b.kind == "Exp":
            mm, facs = b.data
            md = dict(mm)
            if md.get(j) == 1 and not any(j in atom_by(q).vars for q in md if q != j):
                rate = add(rate, scale(Rat({tuple(x for x in mm if x[0] != j): F(1)}, facs), e))
            else:
                # exp(alpha*log J): power of J
                lg = [q for q in md if atom_by(q).kind == "Log" and _single(atom_by(q).data) == j]
                if len(lg) == 1 and md[lg[0]] == 1 and not any(j in atom_by(q).vars for q in md if q != lg[0]):
                    logs.append(scale(Rat({tuple(x for x in mm if x[0] != lg[0]): F(1)}, facs), e))
                else:
                    return None
        else:
            return None
    if a.kind == "PI" and logs and is_zero(rate):
        tot = const(d + 1)
        for l in logs:
            tot = add(tot, l)
        if not nonzero(tot):
            return None
        return scale(div(pow_at(up, tot), tot), c)
    if logs or d < 0:
        return None
    if a.kind == "PI":
        if is_zero(rate) or not nonzero(rate):
            return None
        # int J^d e^{rJ} = e^{rJ} sum_k (-1)^k d!/(d-k)! J^{d-k} / r^{k+1}
        out = ZERO
        coef = F(1)
        for k in range(d + 1):
            out = add(out, scale(div(rpow_const(up, d - k) if d - k else ONE, rpow_const(rate, k + 1)), coef))
            coef = coef * -(d - k)
        at0 = scale(div(ONE, rpow_const(rate, d + 1)), coef_last(d))
        return scale(sub(mul(out, exp(mul(rate, up))), at0), c)
    R = exp(rate)
    rm1 = sub(R, ONE)
    if is_zero(rm1) or not (nonzero(rate) or nonzero(rm1)):        # e**rate == 1 iff rate == 0
        return None
    # PS of J^d R^J:  S_d(n) = (n^d R^n - sum_{k<d} C(d,k) * sum R^{j+1} j^k ) / (R-1)
    def S(dd):
        t = mul(rpow_const(up, dd) if dd else ONE, exp(mul(rate, up)))
        if dd == 0:
            return div(t, rm1)
        for k in range(dd):
            t = sub(t, scale(mul(R, S(k)), math.comb(dd, k)))
        return div(t, rm1)
    top = S(d)
    up = ZERO
    return scale(sub(top, S(d)), c)


def coef_last(d):
    c = F(1)
    for k in range(d):
        c = c * -(d - k)
    return c


def pow_at(b, e):
    if is_zero(b):
        return ZERO
    return rpow(b, e)


# ----------------------------------------------------------------------------------------------- display, numerics
def show_atom(a):
    if a.kind == "Var":
        return a.data[0]
    if a.kind == "App":
        return a.data[0] + "(" + ",".join(show(x) for x in a.data[1]) + ")"
    if a.kind == "Exp":
        return "exp[" + show(Rat({a.data[0]: F(1)}, a.data[1])) + "]"
    if a.kind == "Log":
        return "log[" + show(a.data) + "]"
    return a.kind + "{" + show(a.data[0]) + "}(" + show(a.data[1]) + ")"


def show(r):
    def pp(p):
        if not p:
            return "0"
        s = []
        for m, c in list(p.items())[:12]:
            t = "*".join(show_atom(atom_by(i)) + ("" if e == 1 else f"^{e}") for i, e in m)
            s.append(f"{c}" if not t else (t if c == 1 else f"{c}*{t}"))
        if len(p) > 12:
            s.append(f"...({len(p)} terms)")
        return " + ".join(s)
    s = pp(r.num)
    for f, n in r.den:
        s = f"({s}) / ({pp(dict(f))})^{n}"
    return s


def evalf(r, val, cache=None):
    """numeric value; val: object with .var(name), .app(name, args)"""
    cache = {} if cache is None else cache
    num = _evalp(r.num, val, cache)
    for f, n in r.den:
        num /= _evalp(dict(f), val, cache) ** n
    return num


def _evalp(p, val, cache):
    s = 0.0
    for m, c in p.items():
        t = float(c)
        for i, e in m:
            t *= eval_atom(i, val, cache) ** (e if isinstance(e, int) else float(e))
        s += t
    return s


def eval_atom(i, val, cache):
    if i in cache:
        return cache[i]
    a = atom_by(i)
    if a.kind == "Var":
        x = val.var(a.data[0])
    elif a.kind == "App":
        args = [evalf(x, val, cache) for x in a.data[1]]
        x = float(math.floor(args[0] + 1e-12)) if a.data[0] == "floor" else val.app(a.data[0], args)
    elif a.kind == "Exp":
        x = math.exp(evalf(Rat({a.data[0]: F(1)}, a.data[1]), val, cache))
    elif a.kind == "Log":
        x = math.log(evalf(a.data, val, cache))
    else:
        core, up = a.data
        n = evalf(up, val, cache)
        j = _bv()

        def at(q):
            return evalf(core, _Shadow(val, q), {})
        if a.kind == "PI":
            from scipy.integrate import quad
            x = quad(at, 0.0, n, limit=200)[0]
        else:
            k = int(round(n))
            x = 0.0 if a.kind == "PS" else 1.0
            rng = range(0, k) if k >= 0 else range(k, 0)
            for q in rng:
                if a.kind == "PS":
                    x += at(q) if k >= 0 else -at(q)
                else:
                    x = x * at(q) if k >= 0 else x / at(q)
    cache[i] = x
    return x


class _Shadow:
    def __init__(self, val, q):
        self.v, self.q = val, q

    def var(self, name):
        return self.q if name == "#J" else self.v.var(name)

    def app(self, name, args):
        return self.v.app(name, args)


def key_ne(a, b):
    return a.key != b.key
