# P24 Woolhouse expansion.  The base life is any life (contracts of its annual values, survival and force).
L = use("life")
TF = [True, False]


def d_m(M):
    return M.m * (1 - M.v(1 / M.m))


def whole(M, x, s, mu):
    """annual annuity less (m-1)/2m, and with the third term less (mm-1)/12mm times the force of mortality plus interest"""
    a = L.whole_life_annuity(M, x, s=s) - (M.m - 1) / (2 * M.m)
    if M.three:
        a = a - (M.m ** 2 - 1) / (12 * M.m ** 2) * (M.mu_at(x, s, mu) + M.delta)
    return a


class Force:
    def __init__(self, B, M, kind):
        self.kind = kind
        if kind == "custom":
            self.g = B.fun("mu", 2, lo=0)

    def arg(self):
        return dict(exact=False, approximate=True).get(self.kind) if self.kind != "custom" else (lambda x, s: self.g(x, s))

    def value(self, M, x, s):
        if self.kind == "exact":
            return M.mu(x, s)
        if self.kind == "approximate":
            return -(log(M.p(x, s, 1)) + log(M.p(x, s - 1, 1))) / 2
        return self.g(x, s)


def mu_at(M, x, s, mu):
    return M.force.value(M, x, s) if mu is None else mu


def mu_x(M, x, s=0):
    return HAVOC if M.dead(x, s) else M.force.value(M, x, s)


def deferred(M, x, s, u, t, mu, mu1):
    """discounted difference of the values at the start and the end of the payments"""
    a = L.E_x(M, x, s=s, t=u) * whole(M, x, s + u, mu)
    if t >= 0 and x + s + u + t < M.om:
        a = a - L.E_x(M, x, s=s, t=u + t) * whole(M, x, s + u + t, mu1)
    return a


def whole_life_annuity(M, x, s=0, b=1, mu=None):
    return HAVOC if M.dead(x, s) else b * whole(M, x, s, mu)


def temporary_annuity(M, x, s=0, t=WHOLE, b=1, mu=None, mu1=None):
    return HAVOC if M.dead(x, s) else b * deferred(M, x, s, 0, t, mu, mu1)


def deferred_annuity(M, x, s=0, t=WHOLE, u=0, b=1, mu=None, mu1=None):
    if M.dead(x, s):
        return HAVOC
    return 0 if M.dead(x, s + u) else b * deferred(M, x, s, u, t, mu, mu1)


def life_insurance(M, x, s, mu):
    return 1 - d_m(M) * whole(M, x, s, mu)


def term(M, x, s, u, t, mu, mu1):
    A = L.E_x(M, x, s=s, t=u) * life_insurance(M, x, s + u, mu)
    if t >= 0 and x + s + u + t < M.om:
        A = A - L.E_x(M, x, s=s, t=u + t) * life_insurance(M, x, s + u + t, mu1)
    return A


def whole_life_insurance(M, x, s=0, b=1, mu=None):
    return HAVOC if M.dead(x, s) else b * life_insurance(M, x, s, mu)


def term_insurance(M, x, s=0, t=WHOLE, b=1, mu=None, mu1=None):
    return HAVOC if M.dead(x, s) else b * term(M, x, s, 0, t, mu, mu1)


def deferred_insurance(M, x, s=0, u=0, t=WHOLE, b=1, mu=None, mu1=None):
    if M.dead(x, s):
        return HAVOC
    return 0 if M.dead(x, s + u) else b * term(M, x, s, u, t, mu, mu1)


def endowment_insurance(M, x, s=0, t=WHOLE, b=1, endowment=-1, mu=None, mu1=None):
    if M.dead(x, s):
        return HAVOC
    e = b if endowment < 0 else endowment
    return b * term(M, x, s, 0, t, mu, mu1) + e * L.E_x(M, x, s=s, t=t)


NAMES = ["whole_life_annuity", "temporary_annuity", "deferred_annuity", "whole_life_insurance", "term_insurance",
         "deferred_insurance", "endowment_insurance", "mu_x"]
SPECS = {n: globals()[n] for n in NAMES}
CONTRACTS = {n: Contract(n, SPECS[n]) for n in NAMES}


class W(L.Model):
    mu_at = mu_at


def setup(B, case, skip=()):
    life, M = L.generic_life(B, "Reserves", {"rate": "any"}, max_om=12)
    M.__class__ = W
    M.m = B.int("m", 1, None if B.sym else 12)
    M.three = case["three"]
    M.force = Force(B, M, case.get("force", "exact"))
    kw = dict(three_term=True) if M.three else {}
    if case.get("force") != "approximate":          # the documented default is to approximate
        kw["approximate_mu"] = M.force.arg()
    o = B.unchanged("construction", lambda: B.pkg.Woolhouse(m=M.m, life=life, **kw), life)
    B.bind(o, M, CONTRACTS, skip)
    return o, M, life


def force(B, case):
    o, M, life = setup(B, case, skip=("mu_x",))
    x, s = L.age(B, M)
    if case["force"] == "approximate":
        B.assume(x + s >= 1)
        B.assume(s >= 1)
        B.assume(x + s + 1 < M.om)
    B.eq("force of mortality", B.call(o, "mu_x", x, s=s, watch=(life,)), M.force.value(M, x, s))


def tabulated(B, case):
    """on a life table the force can be approximated from the year just before selection as well"""
    life, M = use("p17").table_life(B, dict(case, extinct=False))
    m = B.int("m", 1, None if B.sym else 12)
    o = B.pkg.Woolhouse(m=m, life=life, three_term=True)
    x = B.int("x", 0, None if B.sym else 20)
    s = 0 if case["s"] == "0" else B.int("s", 0, None if B.sym else 12)
    B.assume(x + s >= M.lo + 1)
    B.assume(x + s + 1 < M.om)
    B.eq("force of mortality from a table", B.call(o, "mu_x", x, s=s, watch=(life,)),
         -log(M.L(x, s + 1) / M.L(x, s - 1)) / 2)


def query(name):
    def run(B, case):
        o, M, life = setup(B, case)
        params = list(L.inspect.signature(SPECS[name]).parameters)
        x, s = L.age(B, M)
        B.assume(s >= 1)
        B.assume(x + s + 1 < M.om)
        y = x + s
        a = {"s": s}
        if "u" in params:
            a["u"] = u = B.int("u", 0, None if B.sym else 12)
            y = y + u
        if "t" in params:
            a["t"] = WHOLE if case["t"] == "W" else B.int("t", 0, None if B.sym else 12)
        if case.get("force") == "approximate":      # a year of survival at each end, or past the end
            B.assume((y + 1 < M.om) | (y >= M.om))
            if a.get("t", WHOLE) >= 0:
                B.assume((y + a["t"] + 1 < M.om) | (y + a["t"] >= M.om))
        if "b" in params:
            a["b"] = B.real("b", 0, top=5, open_lo=True, pick=[1.0, 2.0, 0.5])
        if "endowment" in params:
            a["endowment"] = -1 if case["endowment"] == "neg" else B.real("endowment", 0, top=5, pick=[0.0, 1.0, 2.5])
        if case.get("given"):
            a["mu"] = B.real("mu_start", 0, top=1, pick=[0.0, 0.01, 0.1])
            if "mu1" in params:
                a["mu1"] = B.real("mu_end", 0, top=1, pick=[0.0, 0.02, 0.2])
        B.eq("value", B.call(o, name, x, watch=(life,), **a), SPECS[name](M, x, **a))
    return run


F = [dict(three=False), dict(three=True, force="exact"), dict(three=True, force="approximate"),
     dict(three=True, force="custom"), dict(three=True, force="exact", given=1)]


def with_force(cases):
    return [dict(c, **f) for c in cases for f in F]


WN = ["W", "n"]
HARNESSES = [
    ("documented defaults", L.signature("Woolhouse"), [{}]),
    ("mu_x", force, [dict(three=True, force=f) for f in ("exact", "approximate", "custom")]),
    ("force from a table", tabulated, [dict(s="0", rate="any"), dict(s="s", rate="any")]),
    ("whole_life_annuity", query("whole_life_annuity"), with_force([{}])),
    ("temporary_annuity", query("temporary_annuity"), with_force(L.cross(t=WN))),
    ("deferred_annuity", query("deferred_annuity"), with_force(L.cross(t=WN))),
    ("whole_life_insurance", query("whole_life_insurance"), with_force([{}])),
    ("term_insurance", query("term_insurance"), with_force(L.cross(t=WN))),
    ("deferred_insurance", query("deferred_insurance"), with_force(L.cross(t=WN))),
    ("endowment_insurance", query("endowment_insurance"), with_force(L.cross(t=WN, endowment=["neg", "any"]))),
    ("defaults", L.defaults(NAMES, "Woolhouse", SPECS), [{}]),
]
