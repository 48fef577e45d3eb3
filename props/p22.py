# P22 m'thly payments.  The base life is any life given by its survival function at all durations (contracts of p_r, q_r, E_x).
L = use("life")
TF = [True, False]


class MM(L.Model):
    pass


def ins(M, x, s, u, n, moment, benefit=None):
    """1 (or the benefit at the start of the period) at the end of the period of death within n years after u"""
    m = M.m
    c = benefit or (lambda t: 1)
    if m == 0:
        return integral(lambda y: (c(y) * M.v(y)) ** moment * M.f(x, s, y), u, u + n)
    return sum((c(k / m) * M.v((k + 1) / m)) ** moment * (M.p(x, s, k / m) - M.p(x, s, (k + 1) / m))
               for k in range(u * m, (u + n) * m))


def ann(M, x, s, u, n):
    m = M.m
    if m == 0:
        return integral(lambda y: M.v(y) * M.p(x, s, y), u, u + n)
    return sum(M.v(k / m) * M.p(x, s, k / m) for k in range(u * m, (u + n) * m)) / m


def A_x(M, x, s=0, t=1, u=0, benefit=lambda x, t: 1, moment=1):
    if M.dead(x, s + u):
        return HAVOC
    return ins(M, x, s, u, M.cap(x + s + u, t), moment, lambda y: benefit(x + s, y))


def whole_life_insurance(M, x, s=0, moment=1, b=1):
    if M.dead(x, s):
        return HAVOC
    n = M.om - (x + s)
    if moment == VARIANCE:
        return L.ins_var(ins(M, x, s, 0, n, 2), ins(M, x, s, 0, n, 1), b)
    return b ** moment * ins(M, x, s, 0, n, moment)


def term_insurance(M, x, s=0, t=1, b=1, moment=1):
    if M.dead(x, s):
        return HAVOC
    n = M.cap(x + s, t)
    if moment == VARIANCE:
        return L.ins_var(ins(M, x, s, 0, n, 2), ins(M, x, s, 0, n, 1), b)
    return b ** moment * ins(M, x, s, 0, n, moment)


def deferred_insurance(M, x, s=0, u=0, b=1, t=WHOLE, moment=1):
    if M.dead(x, s):
        return HAVOC
    if M.dead(x, s + u):
        return 0
    n = M.cap(x + s + u, t)
    if moment == VARIANCE:
        return L.ins_var(ins(M, x, s, u, n, 2), ins(M, x, s, u, n, 1), b)
    return b ** moment * ins(M, x, s, u, n, moment)


def endowment_insurance(M, x, s=0, t=1, b=1, endowment=-1, moment=1):
    if M.dead(x, s):
        return HAVOC
    n = M.cap(x + s, t)
    e = b if endowment < 0 else endowment

    def mom(k):
        end = 0 if t < 0 else (e * M.v(n)) ** k * M.p(x, s, n)
        return b ** k * ins(M, x, s, 0, n, k) + end
    if moment == VARIANCE:
        return L.ins_var(mom(2), mom(1))
    return mom(moment)


def d_m(M):
    return M.delta if M.m == 0 else M.m * (1 - M.v(rdiv(1, M.m)))


def rdiv(a, b):
    return a / b


def insurance_twin(M, a):
    return 1 - d_m(M) * a


def annuity_twin(M, A):
    return (1 - A) / d_m(M)


def annuity_variance(M, A2, A1, b=1):
    return L.ins_var(A2, A1, b) / d_m(M) ** 2


def ann_var(M, x, s, n, b):
    """variance of the payments: b/d_m squared times the variance of v to the time of death or the end of the term"""
    end = lambda k: M.v(k * n) * M.p(x, s, n)
    return L.ins_var(ins(M, x, s, 0, n, 2) + end(2), ins(M, x, s, 0, n, 1) + end(1), b) / d_m(M) ** 2


def whole_life_annuity(M, x, s=0, b=1, variance=False):
    if M.dead(x, s):
        return HAVOC
    n = M.om - (x + s)
    if variance:
        return ann_var(M, x, s, n, b)
    return b * ann(M, x, s, 0, n)


def temporary_annuity(M, x, s=0, t=WHOLE, b=1, variance=False):
    if M.dead(x, s):
        return HAVOC
    n = M.cap(x + s, t)
    if variance:
        return ann_var(M, x, s, n, b)
    return b * ann(M, x, s, 0, n)


def deferred_annuity(M, x, s=0, u=0, t=WHOLE, b=1):
    if M.dead(x, s):
        return HAVOC
    if M.dead(x, s + u):
        return 0
    return b * ann(M, x, s, u, M.cap(x + s + u, t))


def immediate_annuity(M, x, s=0, t=WHOLE, b=1):
    """each payment at the end of its period"""
    if M.dead(x, s):
        return HAVOC
    n = M.cap(x + s, t)
    if M.m == 0:
        return b * ann(M, x, s, 0, n)
    return b * sum(M.v((k + 1) / M.m) * M.p(x, s, (k + 1) / M.m) for k in range(0, n * M.m)) / M.m


def E_x(M, x, s=0, t=1, moment=1, endowment=1):
    return L.E_x(M, x, s=s, t=t, endowment=endowment, moment=moment)


NAMES = ["A_x", "whole_life_insurance", "term_insurance", "deferred_insurance", "endowment_insurance", "insurance_twin",
         "annuity_twin", "annuity_variance", "whole_life_annuity", "temporary_annuity", "deferred_annuity",
         "immediate_annuity", "E_x"]
SPECS = {n: globals()[n] for n in NAMES}
CONTRACTS = {n: Contract(n, SPECS[n]) for n in NAMES}


def p_r(M, x, s=0, r=0.0, t=1.0):
    return HAVOC if M.dead(x, s + r) else M.p(x, s + r, t)


def q_r(M, x, s=0, r=0.0, t=1.0, u=0.0):
    return HAVOC if M.dead(x, s + r) else M.p(x, s + r, u) - M.p(x, s + r, t + u)


BASE = {"p_r": Contract("p_r", p_r), "q_r": Contract("q_r", q_r), "E_x": L.CONTRACTS["E_x"]}


def base_life(B, case, cls="MortalityLaws"):
    om = B.int("omega", 1, None if B.sym else 12)
    G = B.lives(om)
    M = MM(G, om, L.rate(B, case))
    life = getattr(B.pkg, cls)()
    life.set_survival(S=lambda x, s, t: M.p(x, s, t), f=lambda x, s, t: M.f(x, s, t),
                      mu=lambda x, t: M.mu(x, t), l=G, maxage=om)
    life.set_interest(delta=M.delta)
    return life, M


def setup(B, case, skip=()):
    life, M = base_life(B, case)
    B.bind(life, M, BASE)
    if case.get("m") == 0:
        m = 0
    else:
        m = B.int("m", 1, None if B.sym else 12)
    M.m = m
    if case.get("rate") == "pos" and case.get("m") != 0:
        B.ghost(M.delta / m > 0)
    o = B.unchanged("construction", lambda: B.pkg.Mthly(m=m, life=life), life)
    B.bind(o, M, CONTRACTS, skip)
    return o, M, life


def periods(B, case):
    o, M, life = setup(B, case)
    m = M.m
    k = B.int("k", 0, None if B.sym else 30)
    q = case["q"]
    if q == "v":
        B.eq("discount", B.call(o, "v_m", k), M.v(k / m))
        return
    x = B.int("x", 0, None if B.sym else M.om - 1)
    j = B.int("s_m", 0, None if B.sym else 30)
    B.assume(x * m + j < M.om * m)
    if q == "p":
        B.eq("survival", B.call(o, "p_m", x, s_m=j, t_m=k, watch=(life,)), M.p(x, j / m, k / m))
    else:
        u = B.int("u_m", 0, None if B.sym else 30)
        B.eq("deferred mortality", B.call(o, "q_m", x, s_m=j, t_m=k, u_m=u, watch=(life,)),
             M.p(x, j / m, u / m) - M.p(x, j / m, (u + k) / m))


def query(name):
    def run(B, case):
        o, M, life = setup(B, case)
        if case.get("rate") == "zero":
            pass
        params = inspect_params(SPECS[name])
        a = {}
        x, s = L.age(B, M)
        a["s"] = s
        y = x + s
        if "u" in params:
            a["u"] = u = B.int("u", 0, None if B.sym else 12)
            if name == "A_x":
                B.assume(y + u < M.om)
            y = y + u
        if "t" in params:
            a["t"] = WHOLE if case["t"] == "W" else B.int("t", 0, None if B.sym else 12)
        if "b" in params:
            a["b"] = B.real("b", 0, top=5, open_lo=True, pick=[1.0, 2.0, 0.5])
        if "endowment" in params:
            if case.get("endowment") == "neg":
                a["endowment"] = -1
            else:
                a["endowment"] = B.real("endowment", 0, top=5, pick=[0.0, 1.0, 2.5])
        if "moment" in params:
            a["moment"] = case["moment"]
        if "variance" in params:
            a["variance"] = case["variance"]
        if name == "A_x" and case.get("benefit"):
            g = B.fun("benefit", 2)
            a["benefit"] = lambda x, t: g(x, t)
        B.eq("value", B.call(o, name, x, watch=(life,), **a), SPECS[name](M, x, **a))
    return run


def inspect_params(f):
    return list(L.inspect.signature(f).parameters)


def twins(B, case):
    o, M, life = setup(B, case)
    v = B.real("value", 0, 1)
    a2 = B.real("A2", 0, 1)
    b = B.real("b", 0, top=5, open_lo=True)
    B.eq("insurance", B.call(o, "insurance_twin", v), insurance_twin(M, v))
    B.eq("annuity", B.call(o, "annuity_twin", v), annuity_twin(M, v))
    B.eq("there and back", o.insurance_twin(o.annuity_twin(v)), v)
    B.eq("variance", B.call(o, "annuity_variance", A2=a2, A1=v, b=b), annuity_variance(M, a2, v, b))


def outcomes(B, case):
    """present value and probability of death in each period"""
    life, M = base_life(B, case)
    B.bind(life, M, BASE)
    m, t = case["m"], case["years"]
    M.m = m
    o = B.unchanged("construction", lambda: B.pkg.Mthly(m=m, life=life), life)
    x, s = L.age(B, M)
    g = B.fun("benefit", 2)
    kw = dict(moment=case["moment"])
    if case.get("benefit") == "default":
        g = lambda x, t: 1
        if case["moment"] == 1:
            kw = {}
    else:
        kw["benefit"] = lambda x, t: g(x, t)
    Z = B.call(o, "Z_m", x, s=s, t=t, watch=(life,), **kw)
    B.ensure("one row a period", list(Z.index) == list(range(1, m * t + 1)))
    for k in range(m * t):
        B.eq("value of the payment", list(Z["Z"])[k], (g(x + s, k / m) * M.v((k + 1) / m)) ** case["moment"])
        B.eq("probability", list(Z["q"])[k], M.p(x, s, k / m) - M.p(x, s, (k + 1) / m))


M3 = [1, 2, VARIANCE]
FREQ = [0, "m"]
HARNESSES = [
    ("documented defaults", L.signature("Mthly"), [{}]),
    ("periods", periods, L.cross(q=["v", "p", "q"], rate=["any"])),
    ("twins", twins, L.cross(m=FREQ, rate=["pos"])),
    ("E_x", query("E_x"), L.cross(m=["m"], t=["W", "n"], moment=[1, 2])),
    ("A_x", query("A_x"), L.cross(m=FREQ, t=["W", "n"], moment=[1, 2], benefit=TF)),
    ("whole_life_insurance", query("whole_life_insurance"), L.cross(m=FREQ, moment=M3)),
    ("term_insurance", query("term_insurance"), L.cross(m=FREQ, t=["W", "n"], moment=M3)),
    ("deferred_insurance", query("deferred_insurance"), L.cross(m=FREQ, t=["W", "n"], moment=M3)),
    ("endowment_insurance", query("endowment_insurance"),
     L.cross(m=FREQ, t=["W", "n"], endowment=["neg", "any"], moment=M3)),
    ("whole_life_annuity", query("whole_life_annuity"), L.cross(m=FREQ, variance=TF, rate=["pos"])),
    ("temporary_annuity", query("temporary_annuity"), L.cross(m=FREQ, t=["W", "n"], variance=TF, rate=["pos"])),
    ("deferred_annuity", query("deferred_annuity"), L.cross(m=FREQ, t=["W", "n"], rate=["pos"])),
    ("immediate_annuity", query("immediate_annuity"), L.cross(m=FREQ, t=["W", "n"], rate=["pos"])),
    ("defaults", L.defaults(NAMES, "Mthly", SPECS), [{}]),
    ("outcomes", outcomes, L.cross(m=[1, 2, 4], years=[1, 2], moment=[1, 2]) + L.cross(m=[2], years=[1], moment=[1, 2], benefit=["default"]),
     dict(bound="up to 8 periods")),
]
