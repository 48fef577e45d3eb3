# P21 extra risk.  The base life is any life (contracts of its survival and mortality rates); the adjusted one-year rates are
# those of the documented change in its force, age or rate.
L = use("life")
KINDS = ["ADD_FORCE", "MULTIPLY_FORCE", "ADD_AGE", "MULTIPLY_RATE", ""]


def setup(B, case, om=None):
    kind = case["kind"]
    if om is None:
        life, M = L.generic_life(B, "Survival", {})
    else:
        G = B.lives(om)
        M = L.Model(G, om, 0)
        life = B.pkg.Survival()
        life.set_survival(S=lambda x, s, t: M.p(x, s, t), f=lambda x, s, t: M.f(x, s, t),
                          mu=lambda x, t: M.mu(x, t), l=G, maxage=om)
        B.bind(life, M, L.CONTRACTS)
    k = B.int("extra", 0, None if B.sym else 6) if kind == "ADD_AGE" else \
        B.real("extra", 0, top=4, pick=[0.0, 0.05, 0.5, 1.0, 2.0])
    o = B.unchanged("construction", lambda: B.pkg.ExtraRisk(life=life, risk=kind, extra=k) if kind else
                    B.pkg.ExtraRisk(life=life), life)
    return o, M, life, k


def spec_p(M, kind, k, x, s):
    p = M.p(x, s, 1)
    if kind == "ADD_FORCE":
        return p * exp(-k)
    if kind == "MULTIPLY_FORCE":
        return power(p, k)
    if kind == "ADD_AGE":
        return M.p(x + k, s, 1)
    if kind == "MULTIPLY_RATE":
        return 1 - k * (1 - p)
    return p


def assume(B, M, case, k, x, s):
    if case["kind"] == "ADD_AGE":
        B.assume(x + k + s < M.om)
    if case["kind"] == "MULTIPLY_RATE":
        B.assume(k * (1 - M.p(x, s, 1)) <= 1)


def rates(B, case):
    o, M, life, k = setup(B, case)
    x, s = L.age(B, M)
    assume(B, M, case, k, x, s)
    kw = dict(s=s) if case["s"] else {}
    if not case["s"]:
        B.assume(s == 0)
        s = 0
    want = spec_p(M, case["kind"], k, x, s)
    if case["which"] == "p":
        B.eq("survival", B.call(o, "p_x", x, watch=(life,), **kw), want)
    elif case["which"] == "q":
        B.eq("mortality", B.call(o, "q_x", x, watch=(life,), **kw), 1 - want)
    else:
        p = B.call(o, "p_x", x, watch=(life,), **kw)
        B.eq("one lives or dies", p + B.call(o, "q_x", x, watch=(life,), **kw), 1)
        B.eq("asked again", B.call(o, "p_x", x, watch=(life,), **kw), p)


def columns(B, case):
    """every age of the base life, the adjusted rate at each"""
    top = 4
    o, M, life, k = setup(B, case, om=top)
    if case["kind"] == "ADD_AGE":
        B.assume(k == 0)
        k = 0
    for x in range(top):
        assume(B, M, case, k, x, 0)
    got = B.call(o, "__getitem__", case["col"], watch=(life,))
    B.ensure("every age", sorted(got) == list(range(top + 1)))
    for x in range(top):
        want = spec_p(M, case["kind"], k, x, 0)
        B.eq("adjusted rate", got[x], want if case["col"] == "p" else 1 - want)


def settings(B, case):
    life, M = L.generic_life(B, "Survival", {})
    k = B.real("extra", 0, top=4)
    B.raises("unknown kind", lambda: B.pkg.ExtraRisk(life=life, risk="ADD_RATE", extra=k))
    B.assume(k > 0)
    B.raises("negative amount", lambda: B.pkg.ExtraRisk(life=life, risk="ADD_FORCE", extra=-k))
    o = B.pkg.ExtraRisk(life=life, risk="ADD_FORCE", extra=k)
    B.ensure("the base life is the one given", o.life is life)


HARNESSES = [
    ("documented defaults", L.signature("ExtraRisk"), [{}]),
    ("rates", rates, L.cross(kind=KINDS, which=["p", "q", "sum"], s=[True, False])),
    ("columns", columns, L.cross(kind=KINDS, col=["p", "q"]), dict(bound="4 ages")),
    ("settings", settings, [{}]),
]
