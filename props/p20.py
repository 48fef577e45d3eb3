# P20 mortality laws.  Each law is its force of mortality; every method it overrides must meet the contract of the general
# method, for that force.  (Methods a law inherits are the general ones, checked under P03-P10 for any lifetime.)
L = use("life")
TF = [True, False]


class Law(L.Model):
    """ghost life with force m(x, s); survival is tied to the force by the lemma in `law`"""

    def __init__(self, B, kind, delta):
        self.kind, self.delta, self.minage = kind, delta, 0
        if kind == "beta":
            self.om = B.int("omega", 1, None if B.sym else 40)
            self.al = B.real("alpha", 0, top=3, open_lo=True, pick=[0.5, 1.0, 1.5, 2.0])
        elif kind == "uniform":
            self.om = B.int("omega", 1, None if B.sym else 40)
            self.al = 1
        elif kind == "constant":
            self.om = 1000
            self.m = B.real("mu", 0, top=1, open_lo=True, pick=[0.01, 0.05, 0.2])
        else:
            self.om = 1000
            self.A = 0 if kind == "gompertz" else B.real("A", 0, top=0.01, pick=[0.0002, 0.003])
            self.B = B.real("B", 0, top=0.01, open_lo=True, pick=[2e-6, 3e-5, 4e-4])
            self.c = B.real("c", 1, top=1.3, open_lo=True, pick=[1.05, 1.1, 1.124])
        self.radix = B.real("radix", 0, top=1e6, open_lo=True, pick=[1.0, 100000.0])

    def build(self, B):
        P = B.pkg
        if self.kind == "beta":
            o = P.Beta(omega=self.om, alpha=self.al, radix=self.radix)
        elif self.kind == "uniform":
            o = P.Uniform(omega=self.om, radix=self.radix)
        elif self.kind == "constant":
            o = P.ConstantForce(mu=self.m)
        elif self.kind == "makeham":
            o = P.Makeham(A=self.A, B=self.B, c=self.c)
        else:
            o = P.Gompertz(B=self.B, c=self.c)
        o.set_interest(delta=self.delta)
        return o

    finite = property(lambda self: self.kind in ("beta", "uniform"))

    def mu(self, x, s):
        if self.finite:
            return self.al / (self.om - x - s)
        if self.kind == "constant":
            return self.m
        return self.A + self.B * power(self.c, x + s)

    def p(self, x, s, t):
        if self.finite:
            return power((self.om - x - s - t) / (self.om - x - s), self.al) if t < self.om - x - s else 0
        if self.kind == "constant":
            return exp(-self.m * t)
        return exp(-(self.A * t + self.B * power(self.c, x + s) * (power(self.c, t) - 1) / log(self.c)))

    def f(self, x, s, t):
        return self.p(x, s, t) * self.mu(x, s + t)

    def L(self, x, s):
        return self.radix * power(self.om - x - s, self.al) if x + s < self.om else 0


def setup(B, case):
    delta = L.rate(B, case) if case.get("rate") else 0
    M = Law(B, case["law"], delta)
    o = M.build(B)
    hi = 100 if not M.finite else M.om - 1
    x = B.int("x", 0, None if B.sym else hi)
    s = B.int("s", 0, None if B.sym else 5)
    B.assume(x + s < M.om)
    return o, M, x, s


def law(B, case):
    """p is the survival function of the force:  p(0) = 1, p' = -mu p, and it composes"""
    o, M, x, s = setup(B, case)
    t = B.real("t", 0, None if B.sym else 10)
    u = B.real("u", 0, None if B.sym else 10)
    if M.finite:
        B.assume(x + s + t + u < M.om)
    B.eq("certain at first", M.p(x, s, 0), 1)
    if SYM:
        B.eq("dies at its force", deriv(lambda y: M.p(x, s, y), t), -M.p(x, s, t) * M.mu(x, s + t))
    B.eq("one year on", M.p(x, s, t) * M.p(x, s + t, u), M.p(x, s, t + u))


def survival(B, case):
    o, M, x, s = setup(B, case)
    t = B.real("t", 0, None if B.sym else 45, pick=None if B.sym else [0.0, 1.0, 2.0, 7.0, 0.5, 44.0])
    u = B.real("u", 0, None if B.sym else 10)
    q = case["q"]
    if q == "p":
        B.eq("survival", B.call(o, "p_x", x, s=s, t=t), M.p(x, s, t))
    elif q == "q":
        B.eq("deferred mortality", B.call(o, "q_x", x, s=s, t=t, u=u), M.p(x, s, u) - M.p(x, s, t + u))
    elif q == "l" and M.finite:
        B.eq("lives", B.call(o, "l_x", x, s=s), M.L(x, s))
    else:
        if M.finite:
            B.assume(x + s + t < M.om)
        if q == "mu":
            B.eq("force", B.call(o, "mu_x", x, s=s, t=t), M.mu(x, s + t))
        elif q == "f":
            B.eq("density", B.call(o, "f_x", x, s=s, t=t), M.f(x, s, t))


def fractional(B, case):
    o, M, x, s = setup(B, case)
    r = B.real("r", 0, 1, open_hi=True)
    t = B.real("t", 0, None if B.sym else 6)
    u = B.real("u", 0, None if B.sym else 6)
    if M.finite:
        B.assume(x + s + r + t + u < M.om)
    q = case["q"]
    if q == "p":
        B.eq("survival", B.call(o, "p_r", x, s=s, r=r, t=t), M.p(x, s + r, t))
    elif q == "q":
        B.eq("deferred mortality", B.call(o, "q_r", x, s=s, r=r, t=t, u=u), M.p(x, s + r, u) - M.p(x, s + r, t + u))
    elif q == "l" and M.finite:
        B.eq("lives", B.call(o, "l_r", x, s=s, r=r), M.L(x, s + r))
    elif q == "mu":
        B.eq("force", B.call(o, "mu_r", x, s=s, r=r), M.mu(x, s + r))
    elif q == "f":
        B.eq("density", B.call(o, "f_r", x, s=s, r=r, t=t), M.f(x, s + r, t))
    elif q == "E":
        B.eq("pure endowment", B.call(o, "E_r", x, s=s, r=r, t=t), M.p(x, s + r, t) * M.v(t))


def lifetime(B, M, x, s, n):
    """expected years lived of the next n, by an antiderivative of survival"""
    w = M.om - x - s
    if M.kind == "constant":
        return B.ftc("expected lifetime", lambda y: -M.p(x, s, y) / M.m, lambda y: M.p(x, s, y), 0, n)
    if not M.finite:
        return integral(lambda y: M.p(x, s, y), 0, n)
    if M.kind == "uniform":
        return integral(lambda y: (w - y) / w, 0, n)

    wa = power(w, M.al)
    return B.ftc("expected lifetime", lambda y: -(w - y) * power(w - y, M.al) / wa / (M.al + 1),
                 lambda y: power(w - y, M.al) / wa, 0, n)


def e_r(B, case):
    o, M, x, s = setup(B, case)
    if case["t"] == "W":
        t, n = WHOLE, M.om - (x + s)
    else:
        t = n = B.real("t", 0, None if B.sym else 45)
        if M.finite:
            n = M.om - x - s if t > M.om - x - s else t
    B.eq("expected lifetime", B.call(o, "e_r", x, s=s, t=t), lifetime(B, M, x, s, n))


def e_x(B, case):
    o, M, x, s = setup(B, case)
    m, cur = case["moment"], case["curtate"]
    if case["t"] == "W":
        t = WHOLE
    else:
        t = B.int("t", 0, None if B.sym else 45)
    n = M.cap(x + s, t)
    kw = dict(t=t, moment=m)
    if case.get("default"):
        kw.pop("moment")
    got = B.call(o, "e_x", x, s=s, curtate=cur, **kw)
    if cur:
        B.eq("curtate lifetime", got, L.e_x(M, x, s, t, True, m))
        return
    if M.kind == "constant" and t < 0 and m != 2:
        # forever:  E[T] = 1/mu, E[T^2] = 2/mu^2  (limits of the limited moments)
        B.eq("complete lifetime", got, 1 / M.m if m == 1 else 1 / M.m ** 2)
        return
    if M.kind == "constant" and m == 1:
        n = t
    e1 = lifetime(B, M, x, s, n)
    if m == 1:
        B.eq("complete lifetime", got, e1)
        return
    w = M.om - x - s
    if M.kind == "beta" and t < 0 and m == VARIANCE:
        wa = power(w, M.al)
        e2 = B.ftc("second moment", lambda y: -2 * power(w - y, M.al) / wa * (w - y) * (y * (M.al + 2) + w - y)
                   / ((M.al + 1) * (M.al + 2)), lambda y: 2 * y * power(w - y, M.al) / wa, 0, n)
    else:
        e2 = integral(lambda y: 2 * y * M.p(x, s, y), 0, n)
    B.eq("complete lifetime", got, e2 if m == 2 else e2 - e1 * e1)


def E_x(B, case):
    o, M, x, s = setup(B, case)
    t = WHOLE if case["t"] == "W" else B.int("t", 0, None if B.sym else 45)
    e = B.real("endowment", 0, top=5, pick=[0.0, 1.0, 2.5])
    m = case["moment"]
    kw = dict(endowment=e) if case["amount"] else {}
    e = e if case["amount"] else 1
    got = B.call(o, "E_x", x, s=s, t=t, moment=m, **kw)
    if t < 0:
        B.eq("never paid", got, 0)
        return
    n = t if M.kind == "constant" else M.cap(x + s, t)      # a constant force has no last age
    p = M.p(x, s, n)
    if m == VARIANCE:
        B.eq("variance of the endowment", got, (e * M.v(n)) ** 2 * p * (1 - p))
    else:
        B.eq("pure endowment", got, (e * M.v(n)) ** m * p)


def EPV(B, M, x, s, n, m):
    """value of 1**m v**(mT) for death within n (n None: ever)"""
    if M.kind == "uniform":
        return integral(lambda y: M.v(m * y) / (M.om - x - s), 0, n)
    a = M.m + m * M.delta
    if n is None:
        return M.m / a          # the limit of the term value: exp(-a n) vanishes
    return B.ftc("insurance", lambda y: -M.m / a * exp(-a * y), lambda y: M.m * exp(-M.m * y) * M.v(m * y), 0, n)


def insurance(B, case):
    o, M, x, s = setup(B, case)
    b = B.real("b", 0, top=5, open_lo=True, pick=[1.0, 2.0, 0.5])
    kw = {}
    if case["t"] == "n":
        kw["t"] = t = B.int("t", 0, None if B.sym else 45)
        n = t if M.kind == "constant" else M.cap(x + s, t)
    else:
        n = None if M.kind == "constant" else M.om - x - s
        if case["what"] == "term":
            kw["t"] = WHOLE
    if case["m"] != 1:
        kw["moment"] = case["m"]
    got = B.call(o, dict(whole="whole_life_insurance", term="term_insurance")[case["what"]], x, s=s, b=b,
                 discrete=False, **kw)
    if case["m"] == VARIANCE:
        A1, A2 = EPV(B, M, x, s, n, 1), EPV(B, M, x, s, n, 2)
        if M.kind == "constant":
            B.eq("variance", got, b * b * max(0, A2 - A1 * A1))
        else:
            B.eq("variance", got, b * b * (A2 - A1 * A1))
    else:
        B.eq("value", got, b ** case["m"] * EPV(B, M, x, s, n, case["m"]))


def discrete(B, case):
    """paid at the end of the year of death: the general formulas"""
    o, M, x, s = setup(B, case)
    G = L.Model(B.lives(M.om), M.om, M.delta) if SYM else M
    if SYM:
        B.bind(o, G, {k: L.CONTRACTS[k] for k in ("p_x", "q_x", "A_x", "E_x")})
    b = B.real("b", 0, top=5, open_lo=True, pick=[1.0, 2.0, 0.5])
    kw = {}
    if case["what"] == "term":
        where = case["t"]
        if where == "at":
            kw["t"] = M.om - x - s
        else:
            kw["t"] = t = B.int("t", 0, None if B.sym else 45)
            B.assume(x + s + t < M.om if where == "in" else x + s + t > M.om)
    m = case["m"]
    name = dict(whole="whole_life_insurance", term="term_insurance")[case["what"]]
    B.eq("value", B.call(o, name, x, s=s, b=b, moment=m, discrete=True, **kw),
         getattr(L, name)(G, x, s=s, b=b, moment=m, discrete=True, **kw))


def annuity(B, case):
    """constant force, continuous"""
    o, M, x, s = setup(B, case)
    b = B.real("b", 0, top=5, open_lo=True, pick=[1.0, 2.0, 0.5])
    kw = {}
    n = None
    if case["t"] == "n":
        kw["t"] = n = B.int("t", 0, None if B.sym else 45)
    elif case["what"] == "temporary":
        kw["t"] = WHOLE
    a = M.m + M.delta
    got = B.call(o, dict(whole="whole_life_annuity", temporary="temporary_annuity")[case["what"]], x, s=s, b=b,
                 discrete=False, **kw)
    if n is None:
        B.eq("annuity for life", got, b / a)
    else:
        B.eq("limited annuity", got, b * B.ftc("annuity", lambda y: -exp(-a * y) / a, lambda y: exp(-M.m * y) * M.v(y), 0, n))


def annuity_variance(B, case):
    """variance of the payments by its twin, whatever the timing"""
    o, M, x, s = setup(B, case)
    b = B.real("b", 0, top=5, open_lo=True, pick=[1.0, 2.0, 0.5])
    disc = case["discrete"]
    r = M.rate(disc)
    if not disc:
        if case["t"] == "W":
            n, kw = None, {}
            A = lambda m: EPV(B, M, x, s, None, m)
        else:
            n = B.int("t", 1, None if B.sym else 40)
            B.assume(x + s + n <= M.om)
            kw = dict(t=n)
            A = lambda m: EPV(B, M, x, s, n, m) + exp(-M.m * n) * M.v(m * n)
        got = B.call(o, "temporary_annuity" if kw else "whole_life_annuity", x, s=s, b=b, variance=True, discrete=False, **kw)
        B.eq("variance", got, b * b * max(0, A(2) - A(1) ** 2) / r ** 2)


def quantile(B, case):
    """constant force: lifetime reached with the given probability; whole years by the timing of the payment"""
    o, M, x, s = setup(B, case)
    p = B.real("prob", 0, 1, open_lo=True, open_hi=True, pick=[0.1, 0.5, 0.75, 0.9])
    disc = case["discrete"]
    if case["what"] == "Z":
        t = -log(p) / M.m
        got = B.call(o, "Z_t", x, p, discrete=disc)
        if disc:
            B.ensure("whole years lived at least that long with the probability", (got <= t) & (t < got + 1))
        else:
            B.eq("survival to then", exp(-M.m * got), p)
    else:
        t = -log(1 - p) / M.m
        got = B.call(o, "Y_t", x, p, discrete=disc)
        if disc:
            B.ensure("number of payments", (got >= t) & (t > got - 1))
        else:
            B.eq("death by then", 1 - exp(-M.m * got), p)


def moments(B, case):
    """a law's insurance and annuity queries in general terms agree with a plain life having the same survival"""
    o, M, x, s = setup(B, case)
    if SYM:
        return
    g = B.pkg.Reserves()
    g.set_survival(S=M.p, f=M.f, mu=M.mu, maxage=M.om)
    g.set_interest(delta=M.delta)
    t, u = B.int("t", 1, None if B.sym else 10), B.int("u", 0, None if B.sym else 5)
    B.assume(x + s + t + u < M.om - (60 if not M.finite else 0))
    disc = case["discrete"]
    kw = dict(discrete=disc)
    tol = 1e-6
    B.eq("deferred", B.call(o, "deferred_insurance", x, s=s, u=u, t=t, **kw), g.deferred_insurance(x, s=s, u=u, t=t, **kw), tol)
    B.eq("endowment", B.call(o, "endowment_insurance", x, s=s, t=t, **kw), g.endowment_insurance(x, s=s, t=t, **kw), tol)
    B.eq("temporary annuity", B.call(o, "temporary_annuity", x, s=s, t=t, **kw), g.temporary_annuity(x, s=s, t=t, **kw), tol)
    B.eq("deferred annuity", B.call(o, "deferred_annuity", x, s=s, u=u, t=t, **kw), g.deferred_annuity(x, s=s, u=u, t=t, **kw), tol)


ALL = ["beta", "uniform", "constant", "makeham", "gompertz"]
M3 = [1, 2, VARIANCE]
HARNESSES = [
    ("documented defaults", L.signature("MortalityLaws", "Beta", "Uniform", "ConstantForce"), [{}]),
    ("law", law, L.cross(law=ALL)),
    ("survival", survival, L.cross(law=ALL, q=["p", "q", "mu", "f"]) + L.cross(law=["beta", "uniform"], q=["l"])),
    ("fractional", fractional, L.cross(law=ALL, q=["p", "q", "mu", "f"]) + L.cross(law=["beta", "uniform"], q=["l"])
     + L.cross(law=ALL, q=["E"], rate=["any"])),
    ("e_r", e_r, L.cross(law=["beta", "uniform"], t=["W", "n"]) + L.cross(law=["makeham", "gompertz"], t=["n"])),
    ("e_x", e_x, L.cross(law=["beta", "uniform", "constant"], t=["W", "n"], curtate=TF, moment=M3)
     + L.cross(law=["beta", "uniform", "constant"], t=["W", "n"], curtate=[False], moment=[1], default=[1])),
    ("E_x", E_x, L.cross(law=["uniform", "constant"], t=["W", "n"], amount=TF, moment=M3, rate=["any"])),
    ("continuous insurance", insurance, L.cross(law=["uniform", "constant"], what=["whole"], t=["W"], m=M3, rate=["zero", "pos"])
     + L.cross(law=["uniform", "constant"], what=["term"], t=["n"], m=M3, rate=["zero", "pos"])
     + L.cross(law=["constant"], what=["term"], t=["W"], m=M3, rate=["any"])),
    ("discrete insurance", discrete, L.cross(law=["uniform", "constant"], what=["whole"], m=M3, rate=["any"])
     + L.cross(law=["uniform", "constant"], what=["term"], t=["in", "at", "past"], m=M3, rate=["any"])),
    ("continuous annuity", annuity, L.cross(law=["constant"], what=["whole"], t=["W"], rate=["any"])
     + L.cross(law=["constant"], what=["temporary"], t=["W", "n"], rate=["any"])),
    ("annuity variance", annuity_variance, L.cross(law=["constant"], discrete=[False], t=["W", "n"], rate=["pos"])),
    ("quantiles", quantile, L.cross(law=["constant"], what=["Z", "Y"], discrete=TF)),
    ("inherited", moments, L.cross(law=ALL, discrete=TF, rate=["pos"])),
]
