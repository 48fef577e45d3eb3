# P04 every form of a survival model describes the same lifetime distribution
L = use("life")


def real_t(B, name, hi):
    return B.real(name, 0, None if B.sym else hi)


def build(B, case):
    """ghost lives / cumulative hazard, and the real model given one form of it"""
    form = case["form"]
    om = B.int("omega", 30, None if B.sym else 60)
    minage = case.get("minage", 0)
    agg = case.get("agg")            # no select effect: lives depend on the attained age alone
    if form == "mu":
        # survival = exp(-H), force = H'
        H = B.smooth("H", 2)

        def Lf(x, s):
            return exp(-H(0, x + s)) if agg else exp(-H(x, s))

        def dL(x, s):
            return -H.d(0, x + s) * exp(-H(0, x + s)) if agg else -H.d(x, s) * exp(-H(x, s))
        M = L.Model(Lf, om, 0, dL, minage)
        given = dict(mu=lambda x, t: H.d(0, x + t) if agg else H.d(x, t))
    else:
        L0 = B.lives(om, extinct=False)
        Lf = (lambda x, s: L0(0, x + s)) if agg else L0
        dL = (lambda x, s: L0.d(0, x + s)) if agg else L0.d
        M = L.Model(Lf, om, 0, dL, minage)
        given = {}
        if form in ("S", "all", "Sf"):
            given["S"] = lambda x, s, t: Lf(x, s + t) / Lf(x, s)
        if form in ("f", "all", "Sf"):
            given["f"] = lambda x, s, t: -dL(x, s + t) / Lf(x, s)
        if form in ("l", "all"):
            given["l"] = Lf
        if form == "all":
            given["mu"] = lambda x, t: -dL(x, t) / Lf(x, t)
    life = getattr(B.pkg, case.get("cls", "Survival"))()
    life.set_survival(maxage=om, minage=minage, **given)
    return life, M


def xs(B, case):
    x = B.int("x", case.get("minage", 0), None if B.sym else 30)
    s = B.int("s", 0, None if B.sym else 10)
    return x, s


def p_x(B, case):
    life, M = build(B, case)
    x, s = xs(B, case)
    t = real_t(B, "t", 10)
    B.eq("survival", B.call(life, "p_x", x, s=s, t=t), M.p(x, s, t))


def q_x(B, case):
    life, M = build(B, case)
    x, s = xs(B, case)
    t, u = real_t(B, "t", 10), real_t(B, "u", 10)
    B.eq("deferred mortality", B.call(life, "q_x", x, s=s, t=t, u=u), M.p(x, s, u) - M.p(x, s, u + t))


def l_x(B, case):
    life, M = build(B, case)
    x, s = xs(B, case)
    if case["form"] in ("l", "all"):
        B.eq("lives", B.call(life, "l_x", x, s=s), M.L(x, s))
        B.eq("deaths", B.call(life, "d_x", x, s=s), M.L(x, s) - M.L(x, s + 1))
    else:
        # the lives of a model given without lives: a fixed number at the minimum age, then survival from there
        m = case.get("minage", 0)
        l0 = B.call(life, "l_x", m, s=0)
        B.ensure("radix is positive", l0 > 0)
        B.eq("lives", B.call(life, "l_x", x, s=s), l0 * M.p(m, 0, x + s - m))
        B.eq("deaths", B.call(life, "d_x", x, s=s), l0 * (M.p(m, 0, x + s - m) - M.p(m, 0, x + s + 1 - m)))


def f_x(B, case):
    life, M = build(B, case)
    x, s = xs(B, case)
    t = B.real("t", 0, None if B.sym else 10, open_lo=True)
    B.eq("density", B.call(life, "f_x", x, s=s, t=t), M.f(x, s, t), 1e-4)


def mu_x(B, case):
    life, M = build(B, case)
    x, s = xs(B, case)
    t = B.real("t", 0, None if B.sym else 10, open_lo=True)
    B.eq("force", B.call(life, "mu_x", x, s=s, t=t), M.mu(x, s + t), 1e-4)


def reject(B, case):
    """a model needs one form"""
    life = B.pkg.Survival()
    B.raises("no form given", lambda: life.set_survival(maxage=100))


FORMS = ["S", "l", "f", "mu", "all", "Sf"]
HARNESSES = [
    ("documented defaults", L.signature("Survival"), [{}]),
    ("p_x", p_x, L.cross(form=FORMS) + [{"form": "l", "cls": "Reserves"}]),
    ("q_x", q_x, L.cross(form=FORMS)),
    ("f_x", f_x, L.cross(form=FORMS)),
    ("mu_x", mu_x, L.cross(form=FORMS)),
    ("l_x and d_x", l_x, L.cross(form=["l", "all"]) + L.cross(form=["S", "f", "mu"], agg=[True], minage=[0, 20])
     + L.cross(form=["S", "mu"], minage=[0, 20])),
    ("reject", reject, [{}]),
    ("defaults", L.defaults(["l_x", "d_x", "p_x", "q_x", "f_x", "mu_x"], "Survival"), [{}]),
]
