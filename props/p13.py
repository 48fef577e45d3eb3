# P13 variance of future loss
L = use("life")
V = use("p12")
TF = [True, False]


def loss_variance(M, x, s, n, pay, prem, disc, whole):
    """variance of pay * v^T - prem * (annuity certain to T) as a function of the time of death at [x]+s, the payment
    made at n if still alive then"""
    r = M.rate(disc)

    def loss(k):
        return pay * M.v(k) - prem * (1 - M.v(k)) / r
    if disc:
        e1 = sum(loss(k + 1) * (M.p(x, s, k) - M.p(x, s, k + 1)) for k in range(0, n))
        e2 = sum(loss(k + 1) ** 2 * (M.p(x, s, k) - M.p(x, s, k + 1)) for k in range(0, n))
    else:
        e1 = integral(lambda y: loss(y) * M.f(x, s, y), 0, n)
        e2 = integral(lambda y: loss(y) ** 2 * M.f(x, s, y), 0, n)
    if not whole:
        e1 = e1 + loss(n) * M.p(x, s, n)
        e2 = e2 + loss(n) ** 2 * M.p(x, s, n)
    return e2 - e1 * e1


def positive(B, M, x, s, n, disc):
    """lemma: an insurance paid with certainty by the limiting age has a positive value, as its payments are discounted
    by at most v^n"""
    if disc:
        B.compare("insurance is positive", lambda k: M.v(k + 1), M.v(n),
                  lambda k: M.L(x, s + k) - M.L(x, s + k + 1), 0, n, True)
    else:
        B.compare("insurance is positive", lambda y: M.v(y), M.v(n), lambda y: -M.dL(x, s + y), 0, n, False)


def net(B, case):
    life, M = L.generic_life(B, "Reserves", case)
    x, s, t, n, cap = V.durations(B, M, case)
    disc = case["discrete"]
    whole = case["n"] == "W"
    b = V.amount(B, "b", open_lo=True)
    A0, a0, E0 = V.factors(M, x, s, cap, disc)
    P = b * (A0 + (0 if whole else E0)) / a0
    positive(B, M, x, s, cap, disc)
    got = B.call(life, "net_policy_variance", x, s=s, t=t, b=b, n=n, endowment=0 if whole else b, discrete=disc)
    B.eq("variance of the net loss", got, loss_variance(M, x, s + t, cap - t, b, P, disc, whole))


def gross(B, case):
    life, M = L.generic_life(B, "Reserves", case)
    x, s, t, n, cap = V.durations(B, M, case)
    z = V.terms(B, dict(case, endowment="zero" if case["n"] == "W" else "equal"))
    c = B.module("policyvalues").Contract(**z)
    P = z["premium"]
    got = B.call(life, "gross_policy_variance", x, s=s, t=t, n=n, contract=c)
    B.eq("variance of the gross loss", got,
         loss_variance(M, x, s + t, cap - t, z["benefit"] + z["settlement_policy"],
                       P - P * z["renewal_premium"] - z["renewal_policy"], z["discrete"], case["n"] == "W"))


def net_loss(B, case):
    """b v^T - P ann(T) with P = b A / a at issue: variance from the insurance moments at the duration"""
    life, M = L.generic_life(B, "Reserves", case)
    A1, A2 = B.real("A1", 0, 1, open_hi=True, top=0.95, open_lo=True), B.real("A2", 0, 1, top=0.95)
    b = V.amount(B, "b")
    r = M.rate(case["discrete"])
    kw = {}
    if case["A"]:
        A = B.real("A", 0, 1, open_hi=True, top=0.95, open_lo=True)
        kw["A"] = A
    else:
        A = A1
    P = b * A / ((1 - A) / r)
    B.eq("variance", B.call(life, "net_variance_loss", A1=A1, A2=A2, b=b, **kw), (b + P / r) ** 2 * (A2 - A1 * A1))


def gross_loss(B, case):
    life, M = L.generic_life(B, "Reserves", case)
    A1, A2 = B.real("A1", 0, 1, open_hi=True, top=0.95), B.real("A2", 0, 1, top=0.95)
    z = V.terms(B, dict(case, endowment="zero"))
    c = B.module("policyvalues").Contract(**z)
    P = z["premium"]
    r = M.rate(z["discrete"])
    B.eq("variance", B.call(life, "gross_variance_loss", A1=A1, A2=A2, contract=c),
         (z["benefit"] + z["settlement_policy"] + (P - P * z["renewal_premium"] - z["renewal_policy"]) / r) ** 2
         * (A2 - A1 * A1))


def npv(M, x, s=0, t=0, b=1, n=WHOLE, endowment=0, discrete=True):
    pass


def gpv(M, x, s=0, t=0, n=WHOLE, contract=None):
    pass


SP = dict(net_policy_variance=npv, gross_policy_variance=gpv)
HARNESSES = [
    ("net_policy_variance", net, L.cross(n=["W", "n"], discrete=TF, rate=["pos"])),
    ("gross_policy_variance", gross, L.cross(n=["W", "n"], discrete=TF, rate=["pos"])),
    ("net_variance_loss", net_loss, L.cross(A=TF, discrete=TF, rate=["pos"])),
    ("gross_variance_loss", gross_loss, L.cross(discrete=TF, rate=["pos"])),
    ("defaults", L.defaults(list(SP), "PolicyValues", SP), [{}]),
]
