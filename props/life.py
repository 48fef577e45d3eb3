# Ghost survival/interest model and the contracts of the life-contingent queries.
# Every contract is a function  spec(M, <documented parameters with documented defaults>)  -> required result.
import inspect


class Model:
    """ghost state of a life object: lives L(x,s) (select at x, duration s), dL its derivative in s,
    limiting age om, force of interest delta (discount v(t) = exp(-delta t))"""

    def __init__(self, L, om, delta, dL=None, minage=0):
        self.L, self.om, self.delta, self.minage = L, om, delta, minage
        self.dL = dL or getattr(L, "d", None)

    def p(self, x, s, t):
        l = self.L(x, s)
        if l == 0:
            return 0
        return self.L(x, s + t) / l

    def q(self, x, s, u, t=1):
        return self.p(x, s, u) - self.p(x, s, u + t)

    def f(self, x, s, t):
        l = self.L(x, s)
        if l == 0:
            return 0
        return -self.dL(x, s + t) / l

    def mu(self, x, t):
        l = self.L(x, t)
        if l == 0:
            return 0
        return -self.dL(x, t) / l

    def v(self, t):
        return exp(-self.delta * t)

    def d(self):
        return 1 - exp(-self.delta)

    def i(self):
        return exp(self.delta) - 1

    def rate(self, discrete):
        return self.d() if discrete else self.delta

    def cap(self, x, t, u=0):
        if t < 0 or x + t + u > self.om:
            return self.om - (x + u)
        return t

    def dead(self, x, s):
        return x + s >= self.om


# ------------------------------------------------------------------------------------------------ survival
def l_x(M, x, s=0):
    return M.L(x, s)


def d_x(M, x, s=0):
    return M.L(x, s) - M.L(x, s + 1)


def p_x(M, x, s=0, t=1):
    return M.p(x, s, t)


def q_x(M, x, s=0, t=1, u=0):
    return M.p(x, s, u) - M.p(x, s, u + t)


def f_x(M, x, s=0, t=0):
    return M.f(x, s, t)


def mu_x(M, x, s=0, t=0):
    return M.mu(x, s + t)


def e_x(M, x, s=0, t=WHOLE, curtate=True, moment=1):
    if M.dead(x, s):
        return HAVOC
    n = M.cap(x + s, t)
    if curtate:
        e1 = sum(M.p(x, s, k) for k in range(1, n + 1))
        if moment == 1:
            return e1
        e2 = sum((2 * k - 1) * M.p(x, s, k) for k in range(1, n + 1))
    else:
        e1 = integral(lambda y: M.p(x, s, y), 0, n)
        if moment == 1:
            return e1
        e2 = integral(lambda y: 2 * y * M.p(x, s, y), 0, n)
    return e2 if moment == 2 else e2 - e1 * e1


# ------------------------------------------------------------------------------------------------ insurance
def E_x(M, x, s=0, t=1, endowment=1, moment=1):
    if t < 0:
        return 0
    if M.dead(x, s):
        return HAVOC
    n = M.cap(x + s, t)
    p = M.p(x, s, n)
    if moment == VARIANCE:
        return (endowment * M.v(n)) ** 2 * p * (1 - p)
    return (endowment * M.v(n)) ** moment * p


def level(M, x, s, u, n, b, moment, discrete):
    """EPV of b paid on death in (u, u+n]"""
    if discrete:
        return b ** moment * sum(M.v((k + 1) * moment) * (M.p(x, s, k) - M.p(x, s, k + 1)) for k in range(u, u + n))
    return b ** moment * integral(lambda y: M.v(y * moment) * M.f(x, s, y), u, u + n)


def ins_var(A2, A1, b=1):
    return b * b * max(0, A2 - A1 * A1)


def A_x(M, x, s=0, t=WHOLE, u=0, benefit=lambda x, t: 1, endowment=0, moment=1, discrete=True):
    if M.dead(x, s + u):
        return HAVOC
    n = M.cap(x + s + u, t)
    if discrete:
        A = sum((benefit(x + s, k + 1) * M.v(k + 1)) ** moment * (M.p(x, s, k) - M.p(x, s, k + 1))
                for k in range(u, u + n))
    else:
        A = integral(lambda y: (benefit(x + s, y) * M.v(y)) ** moment * M.f(x, s, y), u, u + n)
    if t >= 0 and endowment > 0:
        A = A + (endowment * M.v(u + n)) ** moment * M.p(x, s, u + n)
    return A


def insurance_variance(M, A2, A1, b=1):
    return ins_var(A2, A1, b)


def whole_life_insurance(M, x, s=0, moment=1, b=1, discrete=True):
    if M.dead(x, s):
        return HAVOC
    n = M.om - (x + s)
    if moment == VARIANCE:
        return ins_var(level(M, x, s, 0, n, 1, 2, discrete), level(M, x, s, 0, n, 1, 1, discrete), b)
    return level(M, x, s, 0, n, b, moment, discrete)


def term_insurance(M, x, s=0, t=1, b=1, moment=1, discrete=True):
    if M.dead(x, s):
        return HAVOC
    n = M.cap(x + s, t)
    if moment == VARIANCE:
        return ins_var(level(M, x, s, 0, n, 1, 2, discrete), level(M, x, s, 0, n, 1, 1, discrete), b)
    return level(M, x, s, 0, n, b, moment, discrete)


def deferred_insurance(M, x, s=0, u=0, t=WHOLE, b=1, moment=1, discrete=True):
    if M.dead(x, s):
        return HAVOC
    if M.dead(x, s + u):
        return 0
    n = M.cap(x + s + u, t)
    if moment == VARIANCE:
        return ins_var(level(M, x, s, u, n, 1, 2, discrete), level(M, x, s, u, n, 1, 1, discrete), b)
    return level(M, x, s, u, n, b, moment, discrete)


def endowment_insurance(M, x, s=0, t=1, b=1, endowment=-1, moment=1, discrete=True):
    if M.dead(x, s):
        return HAVOC
    n = M.cap(x + s, t)
    e = b if endowment < 0 else endowment

    def mom(m):
        A = level(M, x, s, 0, n, b, m, discrete)
        return A + (e * M.v(n)) ** m * M.p(x, s, n) if t >= 0 else A
    if moment == VARIANCE:
        if endowment < 0:
            # homogeneous in b: the round-off guard max(0, .) is the same either way
            return max(0, mom(2) - mom(1) ** 2)
        return max(0, mom(2) - mom(1) ** 2)
    return mom(moment)


def increasing_insurance(M, x, s=0, t=WHOLE, b=1, discrete=True):
    if M.dead(x, s):
        return HAVOC
    n = M.cap(x + s, t)
    if discrete:
        return b * sum((k + 1) * M.v(k + 1) * (M.p(x, s, k) - M.p(x, s, k + 1)) for k in range(0, n))
    return b * integral(lambda y: y * M.v(y) * M.f(x, s, y), 0, n)


def decreasing_insurance(M, x, s=0, t=1, b=1, discrete=True):
    if M.dead(x, s):
        return HAVOC
    n = M.cap(x + s, t)
    if discrete:
        return b * sum((t - k) * M.v(k + 1) * (M.p(x, s, k) - M.p(x, s, k + 1)) for k in range(0, n))
    return b * integral(lambda y: (t - y) * M.v(y) * M.f(x, s, y), 0, n)


# ------------------------------------------------------------------------------------------------ annuities
def annuity(M, x, s, u, n, b, discrete):
    """EPV of b a year (start of year, or continuously) while alive in [u, u+n)"""
    if discrete:
        return b * sum(M.v(k) * M.p(x, s, k) for k in range(u, u + n))
    return b * integral(lambda y: M.v(y) * M.p(x, s, y), u, u + n)


def annuity_var(M, x, s, n, b, discrete):
    """variance of the PV of b a year over min(lifetime, n)"""
    if M.delta == 0:
        # PV = number of payments: min(K+1, n), or min(T, n)
        if discrete:
            m = n - 1
            e1 = sum(M.p(x, s, k) for k in range(1, m + 1))
            e2 = sum((2 * k - 1) * M.p(x, s, k) for k in range(1, m + 1))
        else:
            e1 = integral(lambda y: M.p(x, s, y), 0, n)
            e2 = integral(lambda y: 2 * y * M.p(x, s, y), 0, n)
        return b * b * (e2 - e1 * e1)
    A1 = level(M, x, s, 0, n, 1, 1, discrete) + M.v(n) * M.p(x, s, n)
    A2 = level(M, x, s, 0, n, 1, 2, discrete) + M.v(2 * n) * M.p(x, s, n)
    r = M.rate(discrete)
    return b * b * max(0, A2 - A1 * A1) / (r * r)


def a_x(M, x, s=0, t=WHOLE, u=0, benefit=lambda x, t: 1, discrete=True):
    if M.dead(x, s + u):
        return HAVOC
    n = M.cap(x + s + u, t)
    if discrete:
        return sum(benefit(x + s, k) * M.v(k) * M.p(x, s, k) for k in range(u, u + n))
    return integral(lambda y: benefit(x + s, y) * M.v(y) * M.p(x, s, y), u, u + n)


def immediate_annuity(M, x, s=0, t=WHOLE, b=1, variance=False):
    if M.dead(x, s):
        return HAVOC
    n = M.cap(x + s, t)
    if variance:
        # payments at 1..n: the due annuity of n+1 payments less the certain first one
        return annuity_var(M, x, s, M.cap(x + s, t if t < 0 else t + 1), b, True)
    return b * sum(M.v(k) * M.p(x, s, k) for k in range(1, n + 1))


def annuity_twin(M, A, discrete=True):
    if M.delta == 0:
        return HAVOC
    return (1 - A) / M.rate(discrete)


def insurance_twin(M, a, moment=1, discrete=True):
    return 1 - a * M.rate(discrete)


def annuity_variance(M, A2, A1, b=1, discrete=True):
    if M.delta == 0:
        return HAVOC
    r = M.rate(discrete)
    return b * b * max(0, A2 - A1 * A1) / (r * r)


def whole_life_annuity(M, x, s=0, b=1, variance=False, discrete=True):
    if M.dead(x, s):
        return HAVOC
    n = M.om - (x + s)
    if variance:
        return annuity_var(M, x, s, n, b, discrete)
    return annuity(M, x, s, 0, n, b, discrete)


def temporary_annuity(M, x, s=0, t=WHOLE, b=1, variance=False, discrete=True):
    if M.dead(x, s):
        return HAVOC
    n = M.cap(x + s, t)
    if variance:
        return annuity_var(M, x, s, n, b, discrete)
    return annuity(M, x, s, 0, n, b, discrete)


def deferred_annuity(M, x, s=0, u=0, t=WHOLE, b=1, discrete=True):
    if M.dead(x, s):
        return HAVOC
    if M.dead(x, s + u):
        return 0
    return annuity(M, x, s, u, M.cap(x + s + u, t), b, discrete)


def certain(M, n, discrete):
    if discrete:
        return sum(M.v(k) for k in range(0, n))
    return integral(lambda y: M.v(y), 0, n)


def certain_life_annuity(M, x, s=0, u=0, t=WHOLE, b=1, discrete=True):
    if M.dead(x, s + u):
        return HAVOC
    return b * certain(M, u, discrete) + annuity(M, x, s, u, M.cap(x + s + u, t), b, discrete)


def increasing_annuity(M, x, s=0, t=WHOLE, b=1, discrete=True):
    if M.dead(x, s):
        return HAVOC
    n = M.cap(x + s, t)
    if discrete:
        return b * sum((k + 1) * M.v(k) * M.p(x, s, k) for k in range(0, n))
    return b * integral(lambda y: y * M.v(y) * M.p(x, s, y), 0, n)


def decreasing_annuity(M, x, s=0, t=0, b=1, discrete=True):
    if M.dead(x, s):
        return HAVOC
    n = M.cap(x + s, t)
    if discrete:
        return b * sum((n - k) * M.v(k) * M.p(x, s, k) for k in range(0, n))
    return b * integral(lambda y: (n - y) * M.v(y) * M.p(x, s, y), 0, n)


NAMES = ["l_x", "d_x", "p_x", "q_x", "f_x", "mu_x", "e_x", "E_x", "A_x", "insurance_variance",
         "whole_life_insurance", "term_insurance", "deferred_insurance", "endowment_insurance",
         "increasing_insurance", "decreasing_insurance", "a_x", "immediate_annuity", "annuity_twin",
         "insurance_twin", "annuity_variance", "whole_life_annuity", "temporary_annuity", "deferred_annuity",
         "certain_life_annuity", "increasing_annuity", "decreasing_annuity"]
SPECS = {n: globals()[n] for n in NAMES}
CONTRACTS = {n: Contract(n, SPECS[n]) for n in NAMES}


# ------------------------------------------------------------------------------------------------ receivers
def rate(B, case):
    """force of interest for the case"""
    r = case.get("rate", "any")
    if r == "zero":
        return 0
    if r == "pos":
        return B.real("delta", 0, top=0.3, open_lo=True, pick=[0.02, 0.05, 0.1, 0.2])
    return B.real("delta", 0, top=0.3, pick=[0.0, 0.02, 0.05, 0.1, 0.2])


def generic_life(B, cls, case, ctor=None, skip=(), max_om=25):
    """any life given by its survival functions: the receiver whose contracts everything else uses"""
    om = B.int("omega", 1, None if B.sym else max_om)
    L = B.lives(om, light=case.get("discrete") is True or case.get("curtate") is True)
    delta = rate(B, case)
    M = Model(L, om, delta)
    obj = getattr(B.pkg, cls)(**(ctor or {}))
    obj.set_survival(S=lambda x, s, t: M.p(x, s, t), f=lambda x, s, t: M.f(x, s, t),
                     mu=lambda x, t: M.mu(x, t), l=L, maxage=om)
    obj.set_interest(delta=delta)
    B.bind(obj, M, CONTRACTS, skip)
    return obj, M


def age(B, M, u=0):
    """live select age"""
    x = B.int("x", 0, None if B.sym else M.om - 1)
    s = B.int("s", 0, None if B.sym else M.om - 1 - x)
    B.assume(x + s < M.om)
    return x, s


def draw_args(B, M, params, case):
    """arguments of a query, symbolic or random, from the parameter names (documented kinds)"""
    a = {}
    if "x" in params:
        x, s = age(B, M)
        a["x"], a["s"] = x, s
        y = x + s
    else:
        y = 0
    if "u" in params:
        u = B.int("u", 0, None if B.sym else M.om - 1 - y)
        if not case.get("u_any"):
            B.assume(y + u < M.om)
        a["u"] = u
    if "t" in params:
        if case.get("t") == "W":
            a["t"] = WHOLE
        else:
            lo = case.get("t_min", 0)
            t = B.int("t", lo, None if B.sym else M.om + 2 - y)
            if case.get("t_in"):
                B.assume(y + a.get("u", 0) + t <= M.om)
            a["t"] = t
    for n in params:
        if n in a or n in ("x", "s"):
            continue
        if n == "b":
            a[n] = B.real("b", 0, top=5, open_lo=True, pick=[1.0, 2.0, 3.5, 0.5])
        elif n in ("moment", "discrete", "variance", "curtate"):
            if n in case:
                a[n] = case[n]
        elif n == "endowment":
            if case.get("endowment") == "neg":
                a[n] = -1
            elif case.get("endowment") == "zero":
                a[n] = 0
            elif case.get("endowment") == "default":
                pass
            else:
                a[n] = B.real("endowment", 0, top=5, pick=[0.0, 1.0, 2.5, 4.0])
        elif n == "benefit":
            if case.get("benefit") != "default":
                a[n] = B.fun("benefit", 2)
        elif n in ("A", "A1", "A2", "a"):
            a[n] = B.real(n, 0, top=3)
    return a


def contract(name, cls="Reserves", skip=(), spec=None, max_om=25, tol=None, fix=None):
    """harness: `cls.name` meets its contract for every argument"""
    def run(B, case):
        obj, M = generic_life(B, case.get("cls", cls), case, max_om=max_om)
        sp = spec or SPECS[name]
        a = draw_args(B, M, list(inspect.signature(sp).parameters)[1:], case)
        a.update(fix or {})
        B.eq(name, B.call(obj, name, **a), sp(M, **a), tol)
    return run


def defaults(names, cls, specs=None):
    """documented default of every parameter (a query without it means the documented thing)"""
    def run(B, case):
        c = getattr(B.pkg, cls)
        for n in names:
            f = getattr(c, n)
            real = inspect.signature(getattr(f, "raw", f)).parameters
            want = inspect.signature((specs or SPECS)[n]).parameters
            for p in want:
                if p in ("M", "benefit") or want[p].default is inspect._empty:
                    continue
                B.ensure("has parameter " + n + "." + p, p in real)
                if p in real:
                    B.ensure("default of " + n + "." + p, real[p].default == want[p].default)
    return run


def signature(*picks):
    """the documented default of every optional parameter; pick = class, or (class, method names)"""
    def run(B, case):
        table = use("sigs").SIGS
        for pick in picks:
            c, names = pick if isinstance(pick, tuple) else (pick, sorted(table[pick]))
            for n in names:
                f = getattr(getattr(B.pkg, c), n)
                real = inspect.signature(getattr(f, "raw", f)).parameters
                if any(v.kind is v.VAR_POSITIONAL for v in real.values()):
                    continue
                for p, d in table[c][n].items():
                    if p not in real:
                        B.ensure("has parameter %s.%s.%s" % (c, n, p),
                                 any(v.kind is v.VAR_KEYWORD for v in real.values()))
                    else:
                        B.ensure("default of %s.%s.%s" % (c, n, p), same_default(real[p].default, d))
    return run


def same_default(got, want):
    return got is want or (got is not None and want is not None and got is not inspect._empty and got == want)


def cross(**kw):
    """cartesian product of case choices"""
    out = [{}]
    for k, vs in kw.items():
        out = [dict(c, **{k: v}) for c in out for v in vs]
    return out
