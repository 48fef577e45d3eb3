# P11 premiums satisfy the equivalence principle
L = use("life")
TF = [True, False]


def amount(B, name, lo=0, hi=5, **k):
    return B.real(name, lo, top=hi, pick=[0.5, 1.0, 2.5] + ([0.0] if not k.get("open_lo") else []), **k)


def net_premium(B, case):
    life, M = L.generic_life(B, "Reserves", case)
    x, s = L.age(B, M)
    y = x + s
    disc = case["discrete"]
    u = 0
    if case["u"]:
        u = B.int("u", 1, None if B.sym else max(1, M.om - 1 - y))
        B.assume(y + u < M.om)
    t = WHOLE if case["t"] == "W" else B.int("t", 1, None if B.sym else M.om + 1 - y)
    n = {"W": WHOLE, "0": 0}.get(case["n"])
    if n is None:
        n = B.int("n", 1, None if B.sym else M.om + 1 - y)
    b = amount(B, "b", open_lo=True)
    e = amount(B, "endowment") if case["endowment"] else 0
    c = amount(B, "initial_cost")
    kw = dict(t=t, u=u, n=n, b=b, endowment=e, discrete=disc, initial_cost=c,
              return_premium=case["ret"], annuity=case["ann"])
    pay = n if case["n"] != "0" else (u if case["u"] else t)       # premium term: given, else deferral, else term
    a = L.temporary_annuity(M, x, s, t=pay, discrete=disc)
    IA = L.increasing_insurance(M, x, s, t=pay, discrete=disc) if case["ret"] else 0
    if case["ann"]:
        ben = L.deferred_annuity(M, x, s, u=u, t=t, b=b, discrete=disc)
    else:
        ben = L.deferred_insurance(M, x, s, u=u, t=t, b=b, discrete=disc)
        if case["t"] != "W":
            ben = ben + L.E_x(M, x, s, t=t + u) * e
    B.assume(abs(a - IA) > 1e-3)
    P = B.call(life, "net_premium", x, s=s, **kw)
    B.eq("value of premiums equals value of benefits", P * a, ben + c + P * IA)


def gross_premium(B, case):
    life, M = L.generic_life(B, "Reserves", case)
    disc = case["discrete"]
    kw = {}
    if case["given"] in ("a", "both"):
        kw["a"] = a = B.real("a", 0, top=20, pick=[5.0, 12.3])
    if case["given"] in ("A", "both"):
        kw["A"] = A = B.real("A", 0, 1, pick=[0.3, 0.7])
    if case["given"] == "a":
        A = 1 - a * M.rate(disc)
    if case["given"] == "A":
        a = (1 - A) / M.rate(disc)
    z = dict(benefit=amount(B, "benefit"), IA=B.real("IA", 0, top=1), settlement_policy=amount(B, "settlement"),
             initial_policy=amount(B, "initial_policy"), initial_premium=B.real("initial_premium", 0, top=1),
             renewal_policy=amount(B, "renewal_policy"), renewal_premium=B.real("renewal_premium", 0, top=0.5))
    E, e = 0, 0
    if case["endowment"]:
        E, e = B.real("E", 0, 1, open_lo=True), amount(B, "endowment")
        z.update(E=E, endowment=e)
    rp, ip = z["renewal_premium"], z["initial_premium"]
    B.assume(abs(a - z["IA"] - (rp * a + ip - rp)) > 1e-3)
    P = B.call(life, "gross_premium", discrete=disc, **kw, **z)
    first = z["initial_policy"] + ip * P
    later = (z["renewal_policy"] + rp * P) * (a - 1)
    B.eq("value of premiums equals value of benefits and expenses", P * a,
         A * (z["benefit"] + z["settlement_policy"]) + E * e + P * z["IA"] + first + later)


def shortcuts(B, case):
    life, M = L.generic_life(B, "Reserves", case)
    disc = case["discrete"]
    P = B.real("premium", 0, top=5, open_lo=True, pick=[0.01, 0.5, 2.0])
    b = amount(B, "b", open_lo=True)
    A = B.call(life, "insurance_equivalence", premium=P, b=b, discrete=disc)
    a = B.call(life, "annuity_equivalence", premium=P, b=b, discrete=disc)
    r = M.rate(disc)
    B.eq("twins", A, 1 - r * a)
    B.eq("equivalence", P * a, b * A)
    B.eq("premium from insurance", B.call(life, "premium_equivalence", A=A, b=b, discrete=disc), P)
    B.eq("premium from annuity", B.call(life, "premium_equivalence", a=a, b=b, discrete=disc), P)
    B.eq("premium from both", B.call(life, "premium_equivalence", A=A, a=a, b=b, discrete=disc), P)


def both(B, case):
    """given both factors the premium is their ratio"""
    life, M = L.generic_life(B, "Reserves", case)
    A, a = B.real("A", 0, 1), B.real("a", 0.1, top=20)
    b = amount(B, "b")
    B.eq("ratio", B.call(life, "premium_equivalence", A=A, a=a, b=b, discrete=case["discrete"]) * a, b * A)


def net_premium_spec(M, x, s=0, t=WHOLE, u=0, n=0, b=1, endowment=0, discrete=True, return_premium=False,
                     annuity=False, initial_cost=0.):
    pass


def gross_premium_spec(M, a=None, A=None, IA=0, discrete=True, benefit=1, E=0, endowment=0, settlement_policy=0.,
                       initial_policy=0., initial_premium=0., renewal_policy=0., renewal_premium=0.):
    pass


def eq_spec(M, premium, b=1, discrete=True):
    pass


def pe_spec(M, A=None, a=None, b=1, discrete=True):
    pass


SP = dict(net_premium=net_premium_spec, gross_premium=gross_premium_spec, insurance_equivalence=eq_spec,
          annuity_equivalence=eq_spec, premium_equivalence=pe_spec)
HARNESSES = [
    ("documented defaults", L.signature("Premiums"), [{}]),
    ("net_premium", net_premium,
     L.cross(t=["W", "n"], u=[False, True], n=["0", "W", "n"], endowment=[False], discrete=TF, ret=TF, ann=[False])
     + L.cross(t=["n"], u=[False, True], n=["0", "n"], endowment=[True], discrete=TF, ret=[False], ann=[False])
     + L.cross(t=["W"], u=[False], n=["0"], endowment=[True], discrete=TF, ret=[False], ann=[False])
     + L.cross(t=["W", "n"], u=[False, True], n=["0", "n"], endowment=[False], discrete=TF, ret=TF, ann=[True])),
    ("gross_premium", gross_premium, L.cross(given=["both"], endowment=TF, discrete=TF)
     + L.cross(given=["a", "A"], endowment=TF, discrete=TF, rate=["pos"])),
    ("equivalence shortcuts", shortcuts, L.cross(discrete=TF, rate=["pos"])),
    ("premium from both factors", both, L.cross(discrete=TF)),
    ("defaults", L.defaults(list(SP), "Premiums", SP), [{}]),
]
