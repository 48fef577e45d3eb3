# P17 life-table queries.  Ghost: lives column Lt(age) for MINAGE <= age <= MAXAGE, nobody after MAXAGE
L = use("life")
TF = [True, False]


class Tab(L.Model):
    def __init__(self, Lt, lo, hi, delta):
        self.Lt, self.lo, self.om, self.delta = Lt, lo, hi, delta
        self.L = lambda x, s: Lt(0, x + s) if x + s <= hi else 0
        self.dL = None


def table_life(B, case, cls="LifeTable", ctor=None):
    lo = B.int("minage", 0, None if B.sym else 3)
    hi = B.int("maxage", 1, None if B.sym else 20)
    B.assume(lo < hi)
    Lt = B.lives(hi, extinct=case.get("extinct", True))
    delta = L.rate(B, case)
    life = getattr(B.pkg, cls)(**(ctor or {}))
    life._MINAGE, life._MAXAGE = lo, hi
    life._table["l"] = B.table("l", lo, hi, value=lambda k: Lt(0, k), total=True)
    life.set_interest(delta=delta)
    return life, Tab(Lt, lo, hi, delta)


def args(B, M, case, names):
    x = B.int("x", 0, None if B.sym else M.om)
    s = B.int("s", 0, None if B.sym else M.om)
    B.assume(x + s >= M.lo)
    if case.get("alive", True):
        B.assume(x + s < M.om)
    a = {"x": x, "s": s}
    if "t" in names:
        a["t"] = WHOLE if case.get("t") == "W" else B.int("t", 0, None if B.sym else M.om + 2 - x)
    if "u" in names:
        a["u"] = B.int("u", 0, None if B.sym else M.om + 2 - x)
    return a


def l_x(B, case):
    life, M = table_life(B, case)
    a = args(B, M, dict(case, alive=False), ())
    B.eq("tabulated lives", B.call(life, "l_x", **a), M.L(**a))


def d_x(B, case):
    life, M = table_life(B, case)
    a = args(B, M, dict(case, alive=False), ("t",))
    B.eq("difference of lives", B.call(life, "d_x", **a), M.L(a["x"], a["s"]) - M.L(a["x"], a["s"] + a["t"]))


def p_x(B, case):
    life, M = table_life(B, case)
    a = args(B, M, case, ("t",))
    B.eq("ratio of lives", B.call(life, "p_x", **a), M.L(a["x"], a["s"] + a["t"]) / M.L(a["x"], a["s"]))


def q_x(B, case):
    life, M = table_life(B, case)
    a = args(B, M, case, ("t", "u"))
    x, s, t, u = a["x"], a["s"], a["t"], a["u"]
    B.eq("deaths over lives", B.call(life, "q_x", **a), (M.L(x, s + u) - M.L(x, s + u + t)) / M.L(x, s))


def mu_x(B, case):
    """force of mortality over the year: minus the logarithm of one-year survival"""
    life, M = table_life(B, case)
    x, s = B.int("x", 0, None if B.sym else M.om), B.int("s", 0, None if B.sym else M.om)
    t = B.int("t", 0, None if B.sym else 3)
    B.assume(x + s >= M.lo)
    B.assume(x + s + t < M.om)
    p = M.L(x, s + t + 1) / M.L(x, s + t)
    B.assume(p >= frac(1, 10000))
    B.eq("from one-year survival", B.call(life, "mu_x", x, s=s, t=t), -log(p))


def past(B, case):
    life, M = table_life(B, case)
    x = B.int("x", 0, None if B.sym else 30)
    s = B.int("s", 0, None if B.sym else 30)
    t = B.int("t", 1, None if B.sym else 10)
    B.assume(x + s > M.om)
    B.eq("no lives", B.call(life, "l_x", x, s=s), 0)
    B.eq("no survivors", B.call(life, "p_x", x, s=s, t=t), 0)
    B.eq("certain death", B.call(life, "q_x", x, s=s, t=t), 1)


def e_x(B, case):
    life, M = table_life(B, case)
    a = args(B, M, case, ("t",))
    x, s, t = a["x"], a["s"], a["t"]
    n = M.om - (x + s) if t < 0 or x + s + t > M.om else t
    kw = dict(curtate=case["curtate"]) if "curtate" in case else {}
    r = B.call(life, "e_x", x, s=s, t=t, moment=case["moment"], **kw)
    l0 = M.Lt(0, x + s)
    lives = lambda k: M.Lt(0, x + s + k)
    if case["moment"] == 1:
        if case.get("curtate", True):
            want = sum(lives(k) for k in range(1, n + 1)) / l0
        else:
            # uniform deaths within each year of age
            want = sum((lives(k) + lives(k + 1)) * frac(1, 2) for k in range(0, n)) / l0
    else:
        e1 = sum(lives(k) for k in range(1, n + 1)) / l0
        e2 = sum((2 * k - 1) * lives(k) for k in range(1, n + 1)) / l0
        want = e2 if case["moment"] == 2 else e2 - e1 * e1
    B.eq("sum of lives over lives", r, want)


def E_x(B, case):
    life, M = table_life(B, case)
    a = args(B, M, case, ("t",))
    x, s, t = a["x"], a["s"], a["t"]
    m = case["moment"]
    c = 1
    kw = {}
    if case["amount"]:
        kw["endowment"] = c = B.real("amount", 0, top=5, pick=[0.0, 2.0, 3.5])
    r = B.call(life, "E_x", x, s=s, t=t, moment=m, **kw)
    if t < 0:
        B.eq("nothing without a term", r, 0)
        return
    p = M.L(x, s + t) / M.L(x, s)
    if m == VARIANCE:
        B.eq("variance", r, (c * M.v(t)) ** 2 * p * (1 - p))
    else:
        B.eq("discounted survivors", r, (c * M.v(t)) ** m * p)


def column(B, case):
    life, M = table_life(B, case)
    B.ensure("lives column", life["l"] is life._table["l"])
    B.ensure("mortality column", life["q"] is life._table["q"])
    B.ensure("survival column", life["p"] is life._table["p"])
    B.ensure("deaths column", life["d"] is life._table["d"])


def makeham(x, t):
    return exp(-frac(22, 100000) * t - frac(27, 10000000) * power(frac(1124, 1000), x)
               * (power(frac(1124, 1000), t) - 1) / log(frac(1124, 1000)))


def sult_curve(B, case):
    m = B.module("sult")
    x = B.int("x", 0, None if B.sym else 100)
    t = B.real("t", 0, top=60) if case["t"] == "real" else B.int("t", 0, None if B.sym else 60)
    B.eq("Makeham survival", m._faml_sult(x, t), makeham(x, t))


def sult_table(B, case):
    """the constructor tabulates radix * S(minage, .) over the ages asked for"""
    lo, n = case["lo"], case["n"]
    S = B.smooth("S", 2)
    if not B.sym:
        Sr = S
        S = lambda x, t: exp(-Sr(x, t))
    else:
        S = B.fun("S", 2, lo="pos")
    radix = B.real("radix", 1, top=1000, pick=[100.0, 1000.0])
    i = B.real("i", 0, top=0.3, open_lo=True, pick=[0.05, 0.1])
    life = B.pkg.SULT(i=i, radix=radix, S=S, minage=lo, maxage=lo + n)
    for k in range(n + 1):
        B.eq("lives", B.call(life, "l_x", lo + k), radix * S(lo, k), 1e-6)
    B.eq("no lives after the table", B.call(life, "l_x", lo + n + 1), 0)
    B.eq("rate", life.interest.i, i)
    for k in range(n):
        B.eq("survival", B.call(life, "p_x", lo, s=k), S(lo, k + 1) / S(lo, k), 1e-6)
        B.eq("survival column", life["p"][lo + k], S(lo, k + 1) / S(lo, k), 1e-6)
        B.eq("mortality column", life["q"][lo + k], 1 - S(lo, k + 1) / S(lo, k), 1e-5)


def sult_defaults(B, case):
    m = B.module("sult")
    p = inspect.signature(m.SULT.__init__).parameters
    B.eq("rate", p["i"].default, frac(5, 100))
    B.eq("radix", p["radix"].default, 100000)
    B.eq("first age", p["minage"].default, 20)
    B.eq("last age", p["maxage"].default, 130)
    B.ensure("curve", p["S"].default is m._faml_sult)


import inspect


def q_spec(M, x, s=0, t=1, u=0):
    pass


def p_spec(M, x, s=0, t=1):
    pass


def l_spec(M, x, s=0):
    pass


def e_spec(M, x, s=0, t=WHOLE, curtate=True, moment=1):
    pass


def E_spec(M, x, s=0, t=1, moment=1, endowment=1):
    pass


EX = [True, False]
HARNESSES = [
    ("documented defaults", L.signature("LifeTable", "SULT"), [{}]),
    ("l_x", l_x, L.cross(extinct=EX)),
    ("d_x", d_x, L.cross(extinct=EX)),
    ("p_x", p_x, L.cross(extinct=EX)),
    ("q_x", q_x, L.cross(extinct=EX)),
    ("mu_x", mu_x, L.cross(extinct=EX)),
    ("past the table", past, L.cross(extinct=EX)),
    ("e_x", e_x, L.cross(extinct=EX, t=["n", "W"], curtate=TF, moment=[1])
     + L.cross(extinct=EX, t=["n", "W"], moment=[2, VARIANCE])),
    ("E_x", E_x, L.cross(extinct=EX, t=["n", "W"], moment=[1, 2, 3, VARIANCE], amount=TF)),
    ("columns", column, [{}]),
    ("standard ultimate curve", sult_curve, L.cross(t=["int", "real"])),
    ("standard ultimate table", sult_table, L.cross(lo=[0, 20], n=[1, 4])),
    ("standard ultimate defaults", sult_defaults, [{}]),
    ("defaults", L.defaults(["l_x", "d_x", "p_x", "q_x", "e_x", "E_x"], "LifeTable",
                            dict(l_x=l_spec, d_x=p_spec, p_x=p_spec, q_x=q_spec, e_x=e_spec, E_x=E_spec)), [{}]),
]
