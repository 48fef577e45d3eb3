# P01 every form of an interest rate describes the same rate
L = use("life")


def rate_given(B, form):
    """(constructor arguments, effective annual rate they mean)"""
    if form == "i":
        i = B.real("i", 0, top=3, pick=[0.0, 0.05, 0.1, 1.0, 0.037])
        return dict(i=i), i
    if form == "d":
        d = B.real("d", 0, 1, open_hi=True, top=0.95, pick=[0.0, 0.05, 0.3])
        return dict(d=d), d / (1 - d)
    if form == "v":
        v = B.real("v", 0, 1, open_lo=True, pick=[1.0, 0.95, 0.5, 0.333])
        return dict(v=v), 1 / v - 1
    if form == "delta":
        delta = B.real("delta", 0, top=2, pick=[0.0, 0.05, 0.1, 0.7])
        return dict(delta=delta), exp(delta) - 1
    m = B.int("m", 1, None if B.sym else 12)
    if form == "i_m":
        r = B.real("i_m", 0, top=2, pick=[0.0, 0.05, 0.12])
        return dict(i_m=r, m=m), (1 + r / m) ** m - 1
    r = B.real("d_m", 0, 0.9, pick=[0.0, 0.05, 0.12])
    v = (1 - r / m) ** m
    return dict(d_m=r, m=m), 1 / v - 1


def forms(B, case):
    kw, i = rate_given(B, case["form"])
    if case["via"] == "Interest":
        I = B.pkg.Interest(**kw)
    else:
        I = B.pkg.Life().set_interest(**kw).interest
    B.eq("i", I.i, i)
    B.eq("v", I.v, 1 / (1 + i))
    B.eq("d", I.d, 1 - 1 / (1 + i))
    B.eq("1 - d", 1 - I.d, I.v)
    B.eq("exp(-delta)", exp(-I.delta), 1 / (1 + i))
    B.eq("delta", I.delta, log(1 + i))
    t = B.real("t", 0, top=40, pick=[0.0, 1.0, 2.0, 0.5, 17.25])
    B.eq("v_t", I.v_t(t), (1 / (1 + i)) ** t)
    near = t + B.real("further", 0, top=1, pick=[.01, .04, 1 / 365, .5])
    B.eq("v_t a little later", I.v_t(near), (1 / (1 + i)) ** near)
    B.eq("v_t asked again", I.v_t(t), (1 / (1 + i)) ** t)
    n = B.int("n", 0, None if B.sym else 30)
    B.eq("v_t at whole years", I.v_t(n), (1 / (1 + i)) ** n)


def given_function(B, case):
    g = B.fun("vt", 1, lo="pos", conc=lambda r: (lambda c: (lambda t: 1 / (1 + c * t)))(r.uniform(.01, .2)))
    h = lambda t: 1 if t == 0 else g(t)
    I = B.pkg.Interest(v_t=h)
    t = B.real("t", 0, top=40)
    B.eq("user discount function", I.v_t(t), h(t))
    for a in ("i", "d", "v", "delta"):
        B.eq("no single rate " + a, getattr(I, a), None)


def rejected(B, case):
    if case["what"] == "none":
        B.raises("no rate", lambda: B.pkg.Interest())
        return
    if case["what"] == "v_t":
        c = B.real("c", 0, 2)
        B.assume(c != 1)
        B.raises("discount function not 1 at time 0", lambda: B.pkg.Interest(v_t=lambda t: c))
        return
    r = B.real("r", -1, 0, open_hi=True, pick=[-0.5, -0.01, -1.0])
    B.assume(r < 0)
    B.raises("negative " + case["what"], lambda: B.pkg.Interest(**{case["what"]: r}))


def fresh(B, case):
    """a model given no rate of interest discounts nothing"""
    o = getattr(B.pkg, case["cls"])()
    t = B.real("t", 0, top=40)
    B.eq("i", o.interest.i, 0)
    B.eq("v_t", o.interest.v_t(t), 1)


FORMS = ["i", "d", "v", "delta", "i_m", "d_m"]
HARNESSES = [
    ("documented defaults", L.signature(("Interest", ["__init__"])), [{}]),
    ("forms", forms, L.cross(form=FORMS, via=["Interest", "Life"])),
    ("given_function", given_function, [{}]),
    ("fresh model", fresh, L.cross(cls=["Life", "Reserves", "LifeTable", "SelectLife", "Recursion", "MortalityLaws"])),
    ("rejected", rejected, L.cross(what=["none", "v_t", "i", "d", "v", "delta", "i_m", "d_m"])),
]
