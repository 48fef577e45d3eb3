# P26 (the frames of every query are obligations of the other files' harnesses; here: copies, properties, views)
L = use("life")
V = use("p12")
TF = [True, False]


def rates(B, case):
    B.assume(True)
    i = B.pkg.Interest(delta=B.real("delta", 0, top=.3))
    for name in ("i", "d", "delta", "v"):
        B.unchanged("Interest." + name, lambda: getattr(i, name), i)
    B.unchanged("Interest.v_t", lambda: i.v_t(B.real("t", 0, top=50)), i)


def copies(B, case):
    """a renewal contract shares nothing with the original, nor a set of premium terms"""
    z = V.terms(B, case)
    c = B.module("policyvalues").Contract(**z)
    for name in ("premium_terms", "renewal_profit", "initial_cost", "claims_cost"):
        B.unchanged("Contract." + name, lambda: getattr(c, name), c)
    r = B.call(c, "renewals", t=B.int("t", 0, None if B.sym else 5))
    B.ensure("frame:a copy", r is not c)
    w = V.amount(B, "other")

    def change():
        for k in vars(r):
            setattr(r, k, w)
    B.unchanged("changing the copy", change, c)
    r = B.call(c, "renewals")

    def change():
        for k in list(vars(c)):
            setattr(c, k, w)
    B.unchanged("changing the original", change, r)
    c = B.module("policyvalues").Contract(**z)
    terms = c.premium_terms

    def change():
        for k in list(terms):
            terms[k] = w
    B.unchanged("changing the premium terms", change, c)
    c2 = B.module("policyvalues").Contract(**z)
    B.unchanged("another contract", lambda: c2.set_contract(benefit=w, T=3), c)


def views(B, case):
    """tables and graphs of a model (bounded: run on the real code only)"""
    r, p = B.rng, B.pkg
    pv = B.module("policyvalues")
    sult = p.SULT()
    x = r.randint(25, 60)
    c = pv.Contract(premium=r.uniform(.01, .05), benefit=1, initial_policy=.01, T=r.choice([10, WHOLE]))
    ask = case["ask"]
    if ask == "frames":
        sel = p.SelectLife().set_table(q={50: [.01, .02, .03], 51: [.02, .03, .04]}).set_interest(i=.05)
        for life in (sult, sel):
            B.unchanged("frame", lambda: life.frame(), life)
        life = p.LifeTable().set_table(q={50: .01, 51: .02, 52: .03})
        B.unchanged("frame", lambda: (life.frame(), life["q"]), life)
        res = p.Reserves().set_reserves(V={0: 0., 1: 2., 2: 5.})
        B.unchanged("reserves_frame", lambda: res.reserves_frame(), res)
        B.unchanged("interest_frame, quantiles_frame", lambda: (p.UDD.interest_frame(), p.Life.quantiles_frame()))
        risk = p.ExtraRisk(life=sult, risk="ADD_FORCE", extra=.01)
        B.unchanged("extra risk", lambda: (risk["q"], risk.p_x(x), risk.q_x(x)), risk)
    else:
        law = p.Gompertz(B=.0003, c=1.09).set_interest(i=.05)
        law = pv.PolicyValues().set_survival(S=law.S, f=law.f, maxage=120).set_interest(i=.05)
        d = r.choice(TF)
        plots = dict(Z=lambda: law.Z_plot(x, T=r.choice([10., None]), discrete=d),
                     Y=lambda: law.Y_plot(x, T=r.choice([10., None]), discrete=d),
                     L=lambda: law.L_plot(x, T=20., contract=c))
        B.unchanged(ask + "_plot", plots[ask], law, c)
        B.module("policyvalues").plt.close("all")


HARNESSES = [
    ("interest rates", rates, [{}]),
    ("copies", copies, L.cross(discrete=TF)),
    ("views", views, L.cross(ask=["frames", "Z", "Y", "L"]), dict(bounded=True, bound="8 drawn models each", runs=2, slow=4)),
]
