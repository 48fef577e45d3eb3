# P23 m'thly values under a uniform distribution of deaths in each year.  The base life is any life (contracts of its annual
# values); the lemma `one year` ties the interest functions to the uniform-deaths assumption itself.
L = use("life")
TF = [True, False]


def nominal(M, k=1):
    """i^(m) at k times the force of interest"""
    return k * M.delta if M.m == 0 else M.m * (exp(k * M.delta / M.m) - 1)


def d_m(M):
    return M.delta if M.m == 0 else M.m * (1 - M.v(1 / M.m))


def ratio(M, k=1):
    return (exp(k * M.delta) - 1) / nominal(M, k)


def alpha_m(M):
    return M.i() * M.d() / (nominal(M) * d_m(M))


def beta_m(M):
    return (M.i() - nominal(M)) / (nominal(M) * d_m(M))


def whole_life_insurance(M, x, s=0, moment=1, b=1):
    if M.dead(x, s):
        return HAVOC
    if moment == VARIANCE:
        A = lambda k: L.whole_life_insurance(M, x, s=s, moment=k) * ratio(M, k)
        return b * b * (A(2) - A(1) ** 2)
    return L.whole_life_insurance(M, x, s=s, moment=moment, b=b) * ratio(M, moment)


def term_insurance(M, x, s=0, t=1, b=1, moment=1):
    if M.dead(x, s):
        return HAVOC
    A = lambda k: L.term_insurance(M, x, s=s, t=t, moment=k, b=b) * ratio(M, k)
    return A(2) - A(1) ** 2 if moment == VARIANCE else A(moment)


def endowment_insurance(M, x, s=0, t=1, b=1, endowment=-1, moment=1):
    if M.dead(x, s):
        return HAVOC
    e = b if endowment < 0 else endowment
    A = lambda k: (L.term_insurance(M, x, s=s, t=t, moment=k, b=b) * ratio(M, k)
                   + e ** k * L.E_x(M, x, s=s, t=t, moment=k))
    return A(2) - A(1) ** 2 if moment == VARIANCE else A(moment)


def ann(M, x, s, u, t):
    """payable in the years u to u + t"""
    E = lambda y: L.E_x(M, x, s=s, t=y)
    n = M.cap(x + s + u, t)
    return alpha_m(M) * L.deferred_annuity(M, x, s=s, u=u, t=t) - beta_m(M) * (E(u) - E(u + n))


def ann_var(M, x, s, t, b):
    A = lambda k: endowment_insurance(M, x, s=s, t=t, moment=k)
    return L.ins_var(A(2), A(1), b) / d_m(M) ** 2


def whole_life_annuity(M, x, s=0, b=1, variance=False):
    if M.dead(x, s):
        return HAVOC
    return ann_var(M, x, s, WHOLE, b) if variance else b * ann(M, x, s, 0, WHOLE)


def temporary_annuity(M, x, s=0, t=WHOLE, b=1, variance=False):
    if M.dead(x, s):
        return HAVOC
    return ann_var(M, x, s, t, b) if variance else b * ann(M, x, s, 0, t)


def deferred_annuity(M, x, s=0, u=0, t=WHOLE, b=1, variance=False):
    if M.dead(x, s):
        return HAVOC
    if M.dead(x, s + u):
        return 0
    if variance:
        # the annuity payable from then, if alive then
        e1 = ann(M, x, s + u, 0, t)
        e2 = ann_var(M, x, s + u, t, 1) + e1 ** 2
        E = lambda k: L.E_x(M, x, s=s, t=u, moment=k)
        return b * b * (E(2) * e2 - (E(1) * e1) ** 2)
    return b * ann(M, x, s, u, t)


NAMES = ["whole_life_insurance", "term_insurance", "endowment_insurance", "whole_life_annuity", "temporary_annuity",
         "deferred_annuity"]
SPECS = {n: globals()[n] for n in NAMES}
CONTRACTS = {n: Contract(n, SPECS[n]) for n in NAMES}


def freq(B, case):
    return 0 if case.get("m") == 0 else B.int("m", 1, None if B.sym else 12)


def setup(B, case):
    life, M = L.generic_life(B, "Reserves", {"rate": "pos"}, max_om=12)
    M.m = freq(B, case)
    if M.m != 0:
        B.ghost(M.delta / M.m > 0)
        B.ghost(2 * M.delta / M.m > 0)
        # the nominal rate is below the annual one
        B.compare("beta is not negative", lambda j: exp(M.delta / M.m * j), 1, lambda j: 1, 0, M.m, True)
    o = B.unchanged("construction", lambda: B.pkg.UDD(m=M.m, life=life), life)
    B.bind(o, M, CONTRACTS)
    return o, M, life


def query(name):
    def run(B, case):
        o, M, life = setup(B, case)
        params = list(L.inspect.signature(SPECS[name]).parameters)
        x, s = L.age(B, M)
        a = {"s": s}
        if "u" in params:
            a["u"] = B.int("u", 0, None if B.sym else 12)
        if "t" in params:
            a["t"] = WHOLE if case["t"] == "W" else B.int("t", 0, None if B.sym else 12)
        if "b" in params:
            a["b"] = B.real("b", 0, top=5, open_lo=True, pick=[1.0, 2.0, 0.5])
        if "endowment" in params:
            a["endowment"] = -1 if case["endowment"] == "neg" else B.real("endowment", 0, top=5, pick=[0.0, 1.0, 2.5])
        if "moment" in params:
            a["moment"] = case["moment"]
        if "variance" in params:
            a["variance"] = case["variance"]
        B.eq("value", B.call(o, name, x, watch=(life,), **a), SPECS[name](M, x, **a))
    return run


def functions(B, case):
    """the interest functions, and the values that a life carries"""
    o, M, life = setup(B, case)
    i = exp(M.delta) - 1
    B.eq("alpha", B.call(B.pkg.UDD, "alpha", m=M.m, i=i), alpha_m(M))
    B.eq("beta", B.call(B.pkg.UDD, "beta", m=M.m, i=i), beta_m(M))
    B.eq("alpha kept", o.alpha_m, alpha_m(M))
    B.eq("beta kept", o.beta_m, beta_m(M))


def one_year(B, case):
    """in a year of uniform deaths:  the sum over its m periods is the annual value times the interest functions"""
    q = B.real("q", 0, 1)
    M = L.Model(None, None, B.real("delta", 0, top=0.3, open_lo=True, pick=[0.02, 0.1]))
    M.m = m = freq(B, case)
    k = case["k"]
    v = lambda t: exp(-k * M.delta * t)
    if m == 0:
        g = lambda y: v(y) * q
        B.eq("insurance", B.ftc("insurance", lambda y: -v(y) * q / (k * M.delta), g, 0, 1), v(1) * q * ratio(M, k))
        if k == 1:
            d = M.delta
            G = lambda y: -v(y) * (1 - y * q) / d + v(y) * q / d ** 2
            B.eq("annuity", B.ftc("annuity", G, lambda y: v(y) * (1 - y * q), 0, 1),
                 alpha_m(M) - beta_m(M) * (1 - v(1) * (1 - q)))
        return
    B.ghost(M.delta / m > 0)
    B.eq("insurance", sum(v((j + 1) / m) * q / m for j in range(0, m)), v(1) * q * ratio(M, k))
    if k == 1:
        B.eq("annuity", sum(v(j / m) * (1 - j * q / m) / m for j in range(0, m)),
             alpha_m(M) - beta_m(M) * (1 - v(1) * (1 - q)))


M3 = [1, 2, VARIANCE]
FREQ = [0, "m"]
HARNESSES = [
    ("documented defaults", L.signature("UDD"), [{}]),
    ("functions", functions, L.cross(m=FREQ)),
    ("one year", one_year, L.cross(m=FREQ, k=[1, 2])),
    ("whole_life_insurance", query("whole_life_insurance"), L.cross(m=FREQ, moment=M3)),
    ("term_insurance", query("term_insurance"), L.cross(m=FREQ, t=["W", "n"], moment=M3)),
    ("endowment_insurance", query("endowment_insurance"),
     L.cross(m=FREQ, t=["W", "n"], endowment=["neg", "any"], moment=M3)),
    ("whole_life_annuity", query("whole_life_annuity"), L.cross(m=FREQ, variance=TF)),
    ("temporary_annuity", query("temporary_annuity"), L.cross(m=FREQ, t=["W", "n"], variance=TF)),
    ("deferred_annuity", query("deferred_annuity"), L.cross(m=FREQ, t=["W", "n"], variance=TF)),
    ("defaults", L.defaults(NAMES, "UDD", SPECS), [{}]),
]
