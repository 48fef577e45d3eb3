# P12 policy values
L = use("life")
TF = [True, False]


def amount(B, name, lo=0, hi=5, **k):
    return B.real(name, lo, top=hi, pick=[0.5, 1.0, 2.5] + ([0.0] if not k.get("open_lo") else []), **k)


def durations(B, M, case):
    """issue at [x]+s, value at duration t, term n"""
    x, s = L.age(B, M)
    y = x + s
    t = 0 if case.get("t") == 0 else B.int("t", 0, None if B.sym else M.om - 1 - y)
    B.assume(y + t < M.om)
    if case["n"] == "W":
        return x, s, t, WHOLE, M.om - y
    n = B.int("n", 1, None if B.sym else M.om + 2 - y)
    B.assume(t <= n)
    return x, s, t, n, M.cap(y, n)


def factors(M, x, s, n, disc, m=1):
    """insurance and annuity factors over n years, and the pure endowment factor"""
    return L.level(M, x, s, 0, n, 1, m, disc), L.annuity(M, x, s, 0, n, 1, disc), M.v(n * m) * M.p(x, s, n)


def endow(B, case, cost):
    return {"zero": 0, "equal": cost, "any": None}[case["endowment"]]


def net(B, case):
    life, M = L.generic_life(B, "Reserves", case)
    x, s, t, n, cap = durations(B, M, case)
    disc = case["discrete"]
    b = amount(B, "b", open_lo=True)
    e = b if case["endowment"] == "equal" else (0 if case["endowment"] == "zero" else amount(B, "e"))
    if case["n"] == "W":
        e = 0 if case["endowment"] == "zero" else e
    A0, a0, E0 = factors(M, x, s, cap, disc)
    A1, a1, E1 = factors(M, x, s + t, cap - t, disc)
    ew = 0 if case["n"] == "W" else e
    P = (b * A0 + ew * E0) / a0
    V = B.call(life, "net_policy_value", x, s=s, t=t, b=b, n=n, endowment=e, discrete=disc)
    B.eq("future benefits less future net premiums", V, b * A1 + ew * E1 - P * a1)
    if case.get("t") == 0:
        B.eq("zero at issue", V, 0)


def terms(B, case):
    d = case.get("discrete", True)
    z = dict(premium=amount(B, "premium"), benefit=amount(B, "benefit", open_lo=True),
             settlement_policy=amount(B, "settlement"), initial_policy=amount(B, "initial_policy"),
             initial_premium=B.real("initial_premium", 0, top=1), renewal_policy=amount(B, "renewal_policy"),
             renewal_premium=B.real("renewal_premium", 0, top=0.5), discrete=d)
    z["endowment"] = {"equal": z["benefit"] + z["settlement_policy"], "zero": 0}.get(case.get("endowment"))
    if z["endowment"] is None:
        z["endowment"] = amount(B, "e")
    return z


def gross_value(M, x, s, t, n, z, whole):
    """n: years from issue"""
    A, a, E = factors(M, x, s + t, n - t, z["discrete"])
    P = z["premium"]
    ben = (z["benefit"] + z["settlement_policy"]) * A + (0 if whole else z["endowment"] * E)
    exp_later = (z["renewal_policy"] + z["renewal_premium"] * P) * a
    V = ben + exp_later - P * a
    if t == 0:
        # the first year's expenses are the initial ones
        V = V + z["initial_policy"] - z["renewal_policy"] + (z["initial_premium"] - z["renewal_premium"]) * P
    return V


def gross(B, case):
    life, M = L.generic_life(B, "Reserves", case)
    x, s, t, n, cap = durations(B, M, case)
    z = terms(B, case)
    c = B.module("policyvalues").Contract(**z)
    V = B.call(life, "gross_policy_value", x, s=s, t=t, n=n, contract=c)
    B.eq("future benefits and expenses less premiums", V, gross_value(M, x, s, t, cap, z, case["n"] == "W"))


def gross_zero(B, case):
    """under the equivalence premium the gross value at issue is zero"""
    life, M = L.generic_life(B, "Reserves", case)
    x, s, t, n, cap = durations(B, M, dict(case, t=0))
    z = terms(B, case)
    A, a, E = factors(M, x, s, cap, z["discrete"])
    c = B.module("policyvalues").Contract(**z)
    B.assume(abs(a - (z["renewal_premium"] * a + z["initial_premium"] - z["renewal_premium"])) > 1e-3)
    kw = {}
    if case["endowment"] != "zero" and case["n"] != "W":
        B.assume(E > 1e-6)
        kw = dict(E=E, endowment=z["endowment"])
    G = B.call(life, "gross_premium", a=a, A=A, discrete=z["discrete"], **kw, **c.premium_terms)
    c.set_contract(premium=G)
    B.eq("zero at issue", B.call(life, "gross_policy_value", x, s=s, t=0, n=n, contract=c), 0)


def net_future_loss(B, case):
    life, M = L.generic_life(B, "Reserves", case)
    A, A1 = B.real("A", 0, 1, open_hi=True, top=0.95), B.real("A1", 0, 1, open_hi=True, top=0.95)
    b = amount(B, "b")
    # premium bA/a and annuities are the twins of the insurances
    r = M.rate(case["discrete"])
    a, a1 = (1 - A) / r, (1 - A1) / r
    B.eq("benefits less premiums", B.call(life, "net_future_loss", A=A, A1=A1, b=b), b * A1 - b * A / a * a1)


def gross_future_loss(B, case):
    life, M = L.generic_life(B, "Reserves", case)
    z = terms(B, case)
    d = z["discrete"]
    c = B.module("policyvalues").Contract(**z)
    kw = {}
    if case["given"] in ("a", "both"):
        kw["a"] = a = B.real("a", 0, top=20, pick=[5.0, 12.3])
    if case["given"] in ("A", "both"):
        kw["A"] = A = B.real("A", 0, 1, pick=[0.3, 0.7])
    if case["given"] == "a":
        A = 1 - a * M.rate(d)
    if case["given"] == "A":
        a = (1 - A) / M.rate(d)
    P = z["premium"]
    B.eq("benefits and expenses less premiums", B.call(life, "gross_future_loss", contract=c, **kw),
         A * (z["benefit"] + z["settlement_policy"]) + z["initial_policy"] + P * z["initial_premium"]
         + (a - 1) * (z["renewal_policy"] + P * z["renewal_premium"]) - P * a)


def contract_terms(B, case):
    z = terms(B, case)
    T = WHOLE if case["T"] == "W" else B.int("T", 1, None if B.sym else 30)
    z["T"] = T
    c = B.module("policyvalues").Contract(**z)
    for k in z:
        B.eq("term " + k, getattr(c, k), z[k])
    t = B.int("t", 0, None if B.sym else 40)
    if case["T"] != "W":
        B.assume(t < T)
    r = B.call(c, "renewals", t=t)
    for k in z:
        want = {"initial_policy": z["renewal_policy"], "initial_premium": z["renewal_premium"],
                "T": T if case["T"] == "W" else T - t}.get(k, z[k])
        B.eq("renewal term " + k, getattr(r, k), want)
    for k in z:
        B.eq("original " + k, getattr(c, k), z[k])
    P = z["premium"]
    B.eq("renewal profit", c.renewal_profit, P - P * z["renewal_premium"] - z["renewal_policy"])
    B.eq("initial cost", c.initial_cost, z["initial_policy"] + P * z["initial_premium"]
         - z["renewal_policy"] - P * z["renewal_premium"])
    B.eq("claims cost", c.claims_cost, z["benefit"] + z["settlement_policy"])
    pt = c.premium_terms
    for k in ("benefit", "initial_policy", "initial_premium", "renewal_policy", "renewal_premium",
              "settlement_policy"):
        B.eq("premium term " + k, pt[k], z[k])
    new = amount(B, "new")
    c.set_contract(benefit=new, discrete=not z["discrete"])
    for k in z:
        B.eq("updated " + k, getattr(c, k), {"benefit": new, "discrete": not z["discrete"]}.get(k, z[k]))


def npv_spec(M, x, s=0, t=0, b=1, n=WHOLE, endowment=0, discrete=True):
    pass


def gpv_spec(M, x, s=0, t=0, n=WHOLE, contract=None):
    pass


def nfl_spec(M, A, A1, b=1):
    pass


def contract_spec(M, premium=1, initial_policy=0, initial_premium=0, renewal_policy=0, renewal_premium=0,
                  settlement_policy=0, benefit=1, endowment=0, T=WHOLE, discrete=True):
    pass


SP = dict(net_policy_value=npv_spec, gross_policy_value=gpv_spec, net_future_loss=nfl_spec)


def contract_defaults(B, case):
    c = B.module("policyvalues").Contract()
    for k, v in dict(premium=1, initial_policy=0, initial_premium=0, renewal_policy=0, renewal_premium=0,
                     settlement_policy=0, benefit=1, endowment=0, T=WHOLE, discrete=True).items():
        B.eq("default " + k, getattr(c, k), v)


HARNESSES = [
    ("documented defaults", L.signature("Contract", "PolicyValues"), [{}]),
    ("net_policy_value", net,
     L.cross(n=["W"], endowment=["zero"], discrete=TF, t=["n", 0], rate=["pos"])
     + L.cross(n=["n"], endowment=["equal"], discrete=TF, t=["n", 0], rate=["pos"])
     + L.cross(n=["n"], endowment=["zero", "any"], discrete=TF, t=["n", 0], rate=["pos"])
     + L.cross(n=["n"], endowment=["zero"], discrete=TF, t=["n"], rate=["zero"])),
    ("gross_policy_value", gross,
     L.cross(n=["W"], endowment=["zero", "any"], discrete=TF, rate=["pos"])
     + L.cross(n=["n"], endowment=["equal", "zero", "any"], discrete=TF, rate=["pos"])),
    ("gross value at issue", gross_zero,
     L.cross(n=["W"], endowment=["zero"], discrete=TF, rate=["pos"])
     + L.cross(n=["n"], endowment=["equal", "zero", "any"], discrete=TF, rate=["pos"])),
    ("net_future_loss", net_future_loss, L.cross(discrete=TF, rate=["pos"])),
    ("gross_future_loss", gross_future_loss, L.cross(given=["both"], discrete=TF)
     + L.cross(given=["a", "A"], discrete=TF, rate=["pos"])),
    ("contract terms", contract_terms, L.cross(T=["W", "n"], discrete=TF)),
    ("contract defaults", contract_defaults, [{}]),
    ("defaults", L.defaults(list(SP), "PolicyValues", SP), [{}]),
]
