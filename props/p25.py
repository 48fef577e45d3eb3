# P25 the recursion solver.  The stored facts are true of one ghost survival and interest model, with lives at every integer age
# and no limiting age: sums over years are ghost cumulative functions C(n+1) = C(n) + (year n's share) with a limit, so a value is
# a difference of cumulatives.  Contract of every helper: None, or the model's value.
TF = [True, False]
L = use("life")


class Twin:
    def __init__(self, M, C, discrete):
        self.M, self.C, self.d = M, C, discrete

    def __call__(self, n):
        return -self.M.d(self.d) * self.C(n) - self.M.v(n) * self.M.L(n)

    @property
    def total(self):
        return -self.M.d(self.d) * self.C.total


class Model:
    def __init__(self, B, delta):
        self.delta = delta
        if B.sym:
            self.L = B.fun("lives", 1, lo="pos")
            self.force = {n: B.fun(n, 1) for n in ("lived", "died2", "paid", "grown", "lived2", "lived2d")}
        else:       # constant force within each year of age
            r = B.rng
            a, b, c = r.uniform(.02, .08), r.choice([0.0, .0005, .002]), r.uniform(-.05, .05)
            self.L = lambda n: exp(-a * n - (b * n * n + (n / 150) ** 4 if n > 0 else 0)) * (1 + c / (4 + n * n))
            mu = lambda n: log(self.L(n) / self.L(n + 1))
            fall = lambda n, m: (self.v(m * n) * self.L(n) - self.v(m * (n + 1)) * self.L(n + 1)) / (m * self.delta + mu(n))

            def moment1(n, d):
                k = d + mu(n)
                e = exp(-k)
                return exp(-d * n) * self.L(n) * (n * (1 - e) / k + (1 - e * (1 + k)) / k ** 2)
            self.force = dict(lived=lambda n: fall(n, 0), died2=lambda n: mu(n) * fall(n, 2), paid=lambda n: fall(n, 1),
                              grown=lambda n: mu(n) * moment1(n, self.delta),
                              lived2=lambda n: 1.0 * n * self.L(n + 1), lived2d=lambda n: moment1(n, 0))
        L, v, f = self.L, self.v, self.force
        dead = lambda n, m: v(m * (n + 1)) * (L(n) - L(n + 1))
        C = lambda name, step: B.cumulative(name, step)
        self.life = {True: C("K", lambda n: L(n + 1)), False: C("T", f["lived"])}
        self.life2 = {True: C("K2", f["lived2"]), False: C("T2", f["lived2d"])}
        self.ann = {True: C("N", lambda n: v(n) * L(n)), False: C("Nc", f["paid"])}
        # summation by parts: what is paid at deaths is the fall of v(n) L(n) less the interest on what is paid to the living
        self.ins = {(1, c): Twin(self, self.ann[c], c) for c in TF}
        self.ins.update({(2, True): C("M2", lambda n: dead(n, 2)), (2, False): C("Mc2", f["died2"])})
        self.inc = {True: C("R", lambda n: (n + 1) * dead(n, 1)), False: C("Rc", f["grown"])}
        self.avar = {d: B.fun("annuityvar" + str(d), 4) for d in TF}
        self.lemma = B.assume if B.sym else None

    def variance(self, m2, var):
        """lemma: the mean of a square is no less than the square of the mean"""
        if self.lemma:
            self.lemma(var >= 0)
            return var
        return var if var > 1e-12 * m2 else 0.0      # (rounding)

    def v(self, t):
        return exp(-self.delta * t)

    def d(self, discrete):
        return 1 - self.v(1) if discrete else self.delta

    def between(self, C, lo, hi):
        return (C.total if hi is None else C(hi)) - C(lo)


def recorded(kind):
    """while the answers a failing path relies on are written down, quantities are named rather than valued"""
    def deco(f):
        sig = L.inspect.signature(f)

        def g(M, *a, **k):
            rec = getattr(M, "rec", None)
            if rec is None:
                return f(M, *a, **k)
            bound = sig.bind(M, *a, **k).arguments
            rec.append([kind, {n: v for n, v in bound.items() if n != "M"}])
            return 0
        g.__signature__ = sig
        return g
    return deco


def describe(B, M):
    def of(known):
        out = []
        for th in known:
            M.rec = []
            try:
                th()
            except BaseException:
                M.rec = []
            for kind, kw in M.rec:
                z = {n: B.linear_form(v) for n, v in kw.items()}
                if None not in z.values():
                    out.append([kind, z])
            M.rec = None
        return out
    return of


def known_facts(B, M, life):
    """the facts a failing path of the verifier relies on"""
    def val(v):
        if not isinstance(v, dict):
            return v
        w = sum(c * (1 if n == "" else B.vals[n] if n in B.vals else B.hints[n]) for n, c in v.items())
        return int(w) if w == int(w) else w
    for kind, z in B.hints["#known"]:
        try:
            kw = {n: val(v) for n, v in z.items()}
        except KeyError:
            continue
        a = kw.pop("x") + kw.pop("s", 0)
        for m in ((1, 2) if kw.get("moment") == VARIANCE else (None,)):
            if m:
                kw["moment"] = m
            try:
                getattr(life, "set_" + kind)(SPEC[kind](M, a, **kw), x=a, **kw)
            except (AssertionError, ZeroDivisionError, OverflowError):
                pass


@recorded("q")
def q_x(M, x, s=0, t=1, u=0):
    a = x + s
    return (M.L(a + u) - (M.L(a + u + t) if t >= 0 else 0)) / M.L(a)


@recorded("p")
def p_x(M, x, s=0, t=1):
    return M.L(x + s + t) / M.L(x + s) if t >= 0 else 0


@recorded("e")
def e_x(M, x, s=0, t=WHOLE, curtate=False, moment=1):
    a = x + s
    end = None if t == WHOLE else a + t
    if moment == 1:
        return M.between(M.life[curtate], a, end) / M.L(a)
    e2 = (2 * M.between(M.life2[curtate], a, end) + (1 - 2 * a) * M.between(M.life[curtate], a, end)) / M.L(a)
    return e2 if moment == 2 else e2 - e_x(M, x, s, t, curtate) ** 2


@recorded("E")
def E_x(M, x, s=0, t=1, endowment=1, moment=1):
    if t < 0:
        return 0
    p = p_x(M, x, s, t)
    if moment == VARIANCE:
        return (endowment * M.v(t)) ** 2 * p * (1 - p)
    return endowment ** moment * M.v(moment * t) * p


@recorded("A")
def A_x(M, x, s=0, t=WHOLE, u=0, b=1, discrete=True, endowment=0, moment=1):
    if moment == VARIANCE:
        A2 = A_x(M, x, s, t, u, b, discrete, endowment, 2)
        return M.variance(A2, A2 - A_x(M, x, s, t, u, b, discrete, endowment, 1) ** 2)
    a = x + s
    A = b ** moment * M.between(M.ins[moment, discrete], a + u, None if t < 0 else a + u + t) / (M.v(moment * a) * M.L(a))
    return A if t < 0 else A + E_x(M, x, s, u + t, endowment, moment)


@recorded("a")
def a_x(M, x, s=0, t=WHOLE, u=0, b=1, discrete=True, variance=False):
    a = x + s
    if variance:
        if u > 0:
            return b ** 2 * M.avar[discrete](a, u, t, M.delta)
        return b ** 2 * A_x(M, x, s, t, 0, 1, discrete, 1, VARIANCE) / M.d(discrete) ** 2
    return b * M.between(M.ann[discrete], a + u, None if t < 0 else a + u + t) / (M.v(a) * M.L(a))


@recorded("IA")
def IA_x(M, x, s=0, t=WHOLE, b=1, discrete=True):
    a = x + s
    end = None if t < 0 else a + t
    return b * (M.between(M.inc[discrete], a, end) - a * M.between(M.ins[1, discrete], a, end)) / (M.v(a) * M.L(a))


@recorded("DA")
def DA_x(M, x, s=0, t=WHOLE, b=1, discrete=True):
    return HAVOC if t < 0 else (t + (1 if discrete else 0)) * A_x(M, x, s, t, 0, b, discrete) - IA_x(M, x, s, t, b, discrete)


def by_benefit(M, x, s=0, t=WHOLE, u=0, benefit=None, endowment=0, moment=1, discrete=True):
    """insurance valued from the survival function: level or increasing benefits only"""
    b1, b2 = benefit(x + s, 1), benefit(x + s, 2)
    if b1 == b2:
        return A_x(M, x, s, t, u, b1, discrete, endowment, moment)
    if b2 == 2 * b1 and u == 0 and moment == 1 and endowment == 0:
        return IA_x(M, x, s, t, b1, discrete)
    return HAVOC


def opt(spec):
    def contract(M, x, s=0, depth=0, **kw):
        return M.optional(lambda: spec(M, x, s, **kw))
    return contract


def quiet(M, label, levels=0):
    return QUIET


class Quiet:
    def __call__(self, *a, **k):
        assert all(isinstance(x, str) for x in a) and k["depth"] is not None

    def display(self, *a, **k):
        pass

    def pop(self, depth):
        pass

    def q(self, x, s=0, t=1, u=0): return ""
    def p(self, x, s=0, t=1): return ""
    def e(self, x, s=0, t=WHOLE, curtate=False, moment=1): return ""
    def E(self, x, s=0, t=1, endowment=1, moment=1): return ""
    def IA(self, x, s=0, t=WHOLE, b=1, discrete=True): return ""
    def DA(self, x, s=0, t=WHOLE, b=1, discrete=True): return ""
    def A(self, x, s=0, t=WHOLE, u=0, b=1, moment=1, endowment=0, discrete=True): return ""
    def a(self, x, s=0, t=WHOLE, u=0, b=1, variance=False, discrete=True): return ""
    def m(self, moment, **k): return ""


QUIET = Quiet()


def blog(M, *args, **kwargs):
    return QUIET


HELPERS = dict(_q_x=Contract("_q_x", lambda M, x, s=0, t=1, u=0, depth=1: M.optional(lambda: q_x(M, x, s, t, u))),
               _p_x=Contract("_p_x", lambda M, x, s=0, t=1, depth=1: M.optional(lambda: p_x(M, x, s, t))),
               _e_x=Contract("_e_x", lambda M, x, s=0, t=WHOLE, curtate=False, moment=1, depth=1:
                             M.optional(lambda: e_x(M, x, s, t, curtate, moment))),
               _E_x=Contract("_E_x", lambda M, x, s=0, t=1, endowment=1, moment=1, depth=1:
                             M.optional(lambda: E_x(M, x, s, t, endowment, moment))),
               _A_x=Contract("_A_x", lambda M, x, s=0, t=WHOLE, u=0, b=1, discrete=True, endowment=0, moment=1, depth=1:
                             M.optional(lambda: A_x(M, x, s, t, u, b, discrete, endowment, moment))),
               _a_x=Contract("_a_x", lambda M, x, s=0, t=WHOLE, u=0, b=1, discrete=True, variance=False, depth=1:
                             M.optional(lambda: a_x(M, x, s, t, u, b, discrete, variance))),
               _IA_x=Contract("_IA_x", lambda M, x, s=0, t=WHOLE, b=1, discrete=True, depth=1:
                              M.optional(lambda: IA_x(M, x, s, t, b, discrete))),
               _DA_x=Contract("_DA_x", lambda M, x, s=0, t=WHOLE, b=1, discrete=True, depth=1:
                              M.optional(lambda: DA_x(M, x, s, t, b, discrete))))
QUERIES = dict(q_x=Contract("q_x", lambda M, x, s=0, t=1, u=0: M.optional(lambda: q_x(M, x, s, t, u))),
               p_x=Contract("p_x", lambda M, x, s=0, t=1: M.optional(lambda: p_x(M, x, s, t))),
               e_x=Contract("e_x", lambda M, x, s=0, t=WHOLE, curtate=False, moment=1:
                            M.optional(lambda: e_x(M, x, s, t, curtate, moment))),
               E_x=Contract("E_x", lambda M, x, s=0, t=1, endowment=1, moment=1:
                            M.optional(lambda: E_x(M, x, s, t, endowment, moment))),
               whole_life_insurance=Contract("whole_life_insurance", lambda M, x, s=0, b=1, discrete=True, moment=1:
                                             M.optional(lambda: A_x(M, x, s, WHOLE, 0, b, discrete, 0, moment))),
               term_insurance=Contract("term_insurance", lambda M, x, s=0, t=1, b=1, moment=1, discrete=True:
                                       M.optional(lambda: A_x(M, x, s, t, 0, b, discrete, 0, moment))),
               deferred_insurance=Contract("deferred_insurance", lambda M, x, s=0, b=1, u=0, t=WHOLE, moment=1, discrete=True:
                                           M.optional(lambda: A_x(M, x, s, t, u, b, discrete, 0, moment))),
               endowment_insurance=Contract("endowment_insurance",
                                            lambda M, x, s=0, t=1, b=1, endowment=-1, moment=1, discrete=True: M.optional(
                                                lambda: A_x(M, x, s, t, 0, b, discrete, b if endowment < 0 else endowment, moment))),
               increasing_insurance=Contract("increasing_insurance", lambda M, x, s=0, t=WHOLE, b=1, discrete=True:
                                             M.optional(lambda: IA_x(M, x, s, t, b, discrete))),
               decreasing_insurance=Contract("decreasing_insurance", lambda M, x, s=0, t=WHOLE, b=1, discrete=True:
                                             M.optional(lambda: DA_x(M, x, s, t, b, discrete))),
               whole_life_annuity=Contract("whole_life_annuity", lambda M, x, s=0, b=1, variance=False, discrete=True:
                                           M.optional(lambda: a_x(M, x, s, WHOLE, 0, b, discrete, variance))),
               temporary_annuity=Contract("temporary_annuity", lambda M, x, s=0, t=WHOLE, b=1, variance=False, discrete=True:
                                          M.optional(lambda: a_x(M, x, s, t, 0, b, discrete, variance))),
               deferred_annuity=Contract("deferred_annuity", lambda M, x, s=0, t=WHOLE, u=0, b=1, discrete=True:
                                         M.optional(lambda: a_x(M, x, s, t, u, b, discrete))),
               A_x=Contract("A_x", lambda M, x, s=0, t=WHOLE, u=0, benefit=None, endowment=0, moment=1, discrete=True:
                            M.optional(lambda: by_benefit(M, x, s, t, u, benefit, endowment, moment, discrete))))
SPEC = dict(q=q_x, p=p_x, e=e_x, E=E_x, A=A_x, a=a_x, IA=IA_x, DA=DA_x)


def fact(M, key):
    """the model's value of a stored item (amounts of one)"""
    return SPEC[key[0]](M, **dict(key[1:]))


class Terms:
    """terms seen so far (nothing reads them)"""
    def union(self, t):
        return self

    def __snap__(self):
        return ()


class Facts(dict):
    """any set of facts true of the model: a lookup finds nothing, or the model's value.  Stores are checked against it"""

    def __init__(self, M, B):
        super().__init__()
        self.M, self.B, self.last = M, B, []

    def get(self, key, default=None):
        for k, v in self.last:
            if k[0] == key[0] and len(k) == len(key) and all(i == j for i, j in zip(k[1:], key[1:])):
                return v
        return self.M.optional(lambda: fact(self.M, key))

    def __contains__(self, key):
        return False

    def __setitem__(self, key, value):
        if self.check:
            self.B.eq("the fact stored is true of the model", value, fact(self.M, key))
        self.last.insert(0, (key, value))

    check = True

    def __snap__(self):
        return tuple(repr(k) for k, _ in self.last)


def solver(B, case, skip=()):
    delta = B.real("delta", 0, top=.25, open_lo=True)
    if not B.sym and B.hints.get("depth", 0) > 4:
        B.hints = dict(B.hints, depth=4)
    depth = B.int("depth", 0, None if B.sym else 4)
    life = B.pkg.Recursion(depth=depth, verbose=False)
    life.set_interest(delta=delta)
    M = Model(B, delta)
    hinted = not B.sym and B.hints
    x = B.int("x", 0, None if B.sym else 60 if hinted else 12)
    s = B.int("s", 0, None if B.sym else 20 if hinted else 4)
    if B.sym:
        B.any_iteration()
        M.optional = B.optional
        B.describe_known(describe(B, M))
        life.pprint = life.blog = QUIET
        life.db = Facts(M, B)
        life._t = {k: Terms() for k in life._t}
        B.bind(life, M, dict(HELPERS, Blog=Contract("Blog", blog), **QUERIES), skip)
    else:
        life.blog = life.Blog("", "")
        if "#known" not in B.hints:
            some_facts(B, M, life, x + s, case)
    return life, M, x, s, depth


def some_facts(B, M, life, a, case):
    r = B.rng
    d = r.choice([.05, .1, .2, .4])
    put = lambda kind, y, **kw: r.random() < d and getattr(life, "set_" + kind)(SPEC[kind](M, y, **kw), x=y, **kw)
    terms = [t for t in (1, 2, 3, case.get("n")) if t]
    for y in range(a - 1, a + 3):
        for t in terms:
            put("q", y, t=t)
            put("p", y, t=t)
            for m in (1, 2):
                put("E", y, t=t, moment=m)
        for t in terms + [WHOLE]:
            for c in TF:
                put("e", y, t=t, curtate=c)
                put("a", y, t=t, discrete=c)
                put("IA", y, t=t, discrete=c)
                if t > 0:
                    put("DA", y, t=t, discrete=c)
                for m in (1, 2):
                    put("A", y, t=t, discrete=c, moment=m)
                    put("A", y, t=t, discrete=c, moment=m, endowment=1 if t > 0 else 0)
                    put("A", y, t=t, discrete=c, moment=m, u=1)
                put("a", y, t=t, discrete=c, u=1)


def term_of(B, case):
    t = case["t"]
    return t if t != "n" else B.int("t", 2, None if B.sym else 10 if B.hints else 3)


def options(B, case, kind, M=None, life=None):
    """arguments of the quantity asked for"""
    kw = {}
    for k in ("u", "discrete", "curtate", "moment", "variance"):
        if k in case:
            kw[k] = case[k]
    if kw.get("u") == "u":
        kw["u"] = B.int("u", 1, None if B.sym else 10 if B.hints else 2)
    if "t" in case:
        kw["t"] = term_of(B, case)
    if kind in ("A", "a", "IA", "DA"):
        kw["b"] = B.real("b", 0, top=1000, open_lo=True, pick=[1.0, 2.0, 1000.0]) if case.get("b") != 0 else 0
    if kind == "E":
        kw["endowment"] = B.real("endow", 0, top=1000, open_lo=True, pick=[1.0, 2.0])
    if kind == "A" and "endow" in case:
        e = case["endow"]
        kw["endowment"] = kw["b"] if e == "b" else B.real("endow", 0, top=1000, open_lo=True, pick=[1.0, 3.0]) if e == "c" else e
    if not B.sym and "#known" in B.hints:
        known_facts(B, M, life)
    return kw


def divided(ex):
    return isinstance(ex, ZeroDivisionError)


def max_(t):
    return 0 if isinstance(t, int) and t < 0 else t


def missing(ex):
    """a formula met a value that is not there"""
    return isinstance(ex, ZeroDivisionError) or isinstance(ex, TypeError) and "NoneType" in str(ex) or type(ex) is Exception


def helper(B, case):
    """one step: every rule gives the model's value from the values its callees give"""
    kind = case["kind"]
    life, M, x, s, depth = solver(B, case)
    kw = options(B, case, kind, M, life)
    got = B.attempt(lambda: B.call(life, "_" + kind + "_x", x, s=s, depth=depth, modifies=("self.blog",), **kw), divided)
    B.none_or("value of the model", got, lambda: SPEC[kind](M, x, s, **kw))


def stored(B, case):
    """a fact stored is true of the model if its value is, is found again, and only for the quantity it was stored for"""
    kind = case["kind"]
    life, M, x, s, depth = solver(B, case)
    kw = options(B, case, kind, M, life)
    val = SPEC[kind](M, x, s, **kw)
    B.ensure("returns the solver", B.call(life, "set_" + kind, val, x, s=s, modifies=("self.db", "self._t"), **kw) is life)
    B.none_or("found again", B.call(life, "_get_" + kind, x, s=s, **kw), lambda: val)
    B.ensure("is found", B.call(life, "_get_" + kind, x, s=s, **kw) is not None)
    k2 = B.int("shift", 0, None if B.sym else 2)
    B.none_or("found by attained age", B.call(life, "_get_" + kind, x + s + k2, s=-k2, **kw), lambda: val)


def anyvalue(B, case):
    """whatever value was stored is what a query answers, and storing again replaces it"""
    kind = case["kind"]
    life, M, x, s, depth = solver(B, case)
    if B.sym:
        life.db.check = False
    kw = options(B, case, kind, M, life)
    if kind == "A" and case["t"] == 1 and case["discrete"]:     # otherwise certain, whatever is stored
        B.assume(kw.get("endowment", 0) != kw["b"])
    w = B.real("w", 0, 1)
    w2 = B.real("w2", 0, 1)
    B.call(life, "set_" + kind, w2, x, s=s, modifies=("self.db", "self._t"), **kw)
    B.call(life, "set_" + kind, w, x, s=s, modifies=("self.db", "self._t"), **kw)
    B.eq("value stored", B.call(life, "_" + kind + "_x", x, s=s, depth=depth, modifies=("self.blog",), **kw), w)
    if "name" in case:
        kw = {k: v for k, v in kw.items() if k in case["args"]}
        B.eq("value stored answers the query", B.call(life, case["name"], x, s=s, modifies=("self.blog",), **kw), w)


def found(B, case):
    kind = case["kind"]
    life, M, x, s, depth = solver(B, case)
    kw = options(B, case, kind, M, life)
    B.none_or("value of the model", B.call(life, "_get_" + kind, x, s=s, **kw), lambda: SPEC[kind](M, x, s, **kw))


def query(B, case):
    """public queries: None or the model's value"""
    kind, name = case["kind"], case["name"]
    life, M, x, s, depth = solver(B, case)
    kw = options(B, case, kind, M, life)
    B.assume(x + s + kw.get("u", 0) + max_(kw["t"]) <= life._MAXAGE)
    args = {k: v for k, v in kw.items() if k in case["args"]}
    got = B.attempt(lambda: B.call(life, name, x, s=s, modifies=("self.blog",), **args), missing)
    B.none_or("value of the model", got, lambda: SPEC[kind](M, x, s, **kw))


def cross(**kw):
    out = [{}]
    for k, vs in kw.items():
        out = [dict(o, **{k: v}) for o in out for v in vs]
    return out


T = [WHOLE, 0, 1, "n"]
SHAPES = (cross(kind=["q"], t=T, u=[0, "u"]) + cross(kind=["p"], t=T)
          + cross(kind=["e"], t=T, curtate=TF, moment=[1, 2]) + cross(kind=["E"], t=T, moment=[1, 2])
          + cross(kind=["A"], t=[WHOLE, 0], discrete=TF, moment=[1, 2], endow=[0], u=[0, "u"])
          + cross(kind=["A"], t=[0, 1, "n"], discrete=TF, moment=[1, 2], endow=[0, "b", "c"], u=[0, "u"])
          + cross(kind=["A"], t=[1, "n"], discrete=TF, moment=[1], endow=["c"], u=[0], b=[0])
          + cross(kind=["A"], t=[WHOLE, 1, "n"], discrete=TF, moment=[VARIANCE], endow=[0, "b"], u=[0])
          + cross(kind=["a"], t=T, discrete=TF, u=[0, "u"]) + cross(kind=["a"], t=T, discrete=TF, u=[0], variance=[True])
          + cross(kind=["IA"], t=T, discrete=TF) + cross(kind=["DA"], t=[0, 1, "n"], discrete=TF))
PUBLIC = (cross(kind=["q"], name=["q_x"], t=T, u=[0, "u"], args=[("t", "u")])
          + cross(kind=["p"], name=["p_x"], t=T, args=[("t",)])
          + cross(kind=["e"], name=["e_x"], t=T, curtate=TF, moment=[1, 2], args=[("t", "curtate", "moment")])
          + cross(kind=["E"], name=["E_x"], t=T, moment=[1, 2, VARIANCE], args=[("t", "endowment", "moment")])
          + cross(kind=["A"], name=["whole_life_insurance"], t=[WHOLE], discrete=TF, moment=[1, 2, VARIANCE], endow=[0],
                  args=[("b", "discrete", "moment")])
          + cross(kind=["A"], name=["term_insurance"], t=T, discrete=TF, moment=[1, 2, VARIANCE], endow=[0],
                  args=[("t", "b", "discrete", "moment")])
          + cross(kind=["A"], name=["deferred_insurance"], t=T, u=[0, "u"], discrete=TF, moment=[1, 2, VARIANCE], endow=[0],
                  args=[("t", "u", "b", "discrete", "moment")])
          + cross(kind=["A"], name=["endowment_insurance"], t=T, discrete=TF, moment=[1, 2, VARIANCE],
                  endow=[0, "b", "c"], args=[("t", "b", "discrete", "moment", "endowment")])
          + cross(kind=["A"], name=["endowment_insurance"], t=[1, "n"], discrete=TF, moment=[1, 2],
                  endow=["b"], args=[("t", "b", "discrete", "moment")])
          + cross(kind=["IA"], name=["increasing_insurance"], t=T, discrete=TF, args=[("t", "b", "discrete")])
          + cross(kind=["DA"], name=["decreasing_insurance"], t=[0, 1, "n"], discrete=TF, args=[("t", "b", "discrete")])
          + cross(kind=["a"], name=["whole_life_annuity"], t=[WHOLE], discrete=TF, variance=TF,
                  args=[("b", "discrete", "variance")])
          + cross(kind=["a"], name=["temporary_annuity"], t=T, discrete=TF, variance=TF,
                  args=[("t", "b", "discrete", "variance")])
          + cross(kind=["a"], name=["deferred_annuity"], t=T, u=[0, "u"], discrete=TF, args=[("t", "u", "b", "discrete")]))
STORE = [c for c in SHAPES if c["t"] != 0 and not (c["kind"] == "A" and c.get("b") == 0)]
CERTAIN = [dict(kind="p", t=WHOLE), dict(kind="A", t=1, discrete=True, endow="b", u=0), dict(kind="a", t=1, discrete=True, u=0)]
ANY = [c for c in STORE if not any(all(c.get(k) == v for k, v in d.items()) for d in CERTAIN)]
HARNESSES = [
    ("documented defaults", L.signature("Recursion"), [{}]),
    ("helper", helper, SHAPES),
    ("found", found, SHAPES),
    ("stored", stored, STORE),
    ("anyvalue", anyvalue, ANY),
    ("query", query, PUBLIC),
]
