# P03 moment and probability helpers
L = use("life")
TF = [True, False]


def pr(B, name):
    return B.real(name, 0, 1, pick=[0.0, 1.0, 0.25, 0.5, 0.9])


def variance(B, case):
    c = B.pkg.Life
    a, b = B.real("a"), B.real("b")
    # X, Y with second moments given: Var(aX+bY) = E[(aX+bY)^2] - E[aX+bY]^2
    x1, y1, x2, y2, xy = (B.real(n) for n in ("ex", "ey", "exx", "eyy", "exy"))
    B.eq("variance", B.call(c, "variance", a=a, b=b, var_a=x2 - x1 * x1, var_b=y2 - y1 * y1, cov_ab=xy - x1 * y1),
         a * a * x2 + 2 * a * b * xy + b * b * y2 - (a * x1 + b * y1) ** 2)
    B.eq("covariance", B.call(c, "covariance", a=x1, b=y1, ab=xy), xy - x1 * y1)


def bernoulli(B, case):
    c = B.pkg.Life
    p = pr(B, "p")
    kw = {}
    a, b = 1, 0
    if case["values"]:
        a, b = B.real("a"), B.real("b")
        kw = dict(a=a, b=b)
    e1 = p * a + (1 - p) * b
    e2 = p * a * a + (1 - p) * b * b
    B.eq("mean", B.call(c, "bernoulli", p, **kw), e1)
    B.eq("variance", B.call(c, "bernoulli", p, variance=True, **kw), e2 - e1 * e1)


def mom(p, N):
    """first two moments of a sum of N independent Bernoulli(p)"""
    return N * p, N * p + N * (N - 1) * p * p


def binomial(B, case):
    c = B.pkg.Life
    p = pr(B, "p")
    N = B.int("N", 1, None if B.sym else 1000)
    m1, m2 = mom(p, N)
    B.eq("mean", B.call(c, "binomial", p, N), m1)
    B.eq("variance", B.call(c, "binomial", p, N, variance=True), m2 - m1 * m1)


def mixture(B, case):
    c = B.pkg.Life
    p, p1, p2 = pr(B, "p"), pr(B, "p1"), pr(B, "p2")
    N = B.int("N", 1, None if B.sym else 1000)
    kw = dict(N=N)
    if case["N"] == 1:
        N, kw = 1, {}
    (a1, a2), (b1, b2) = mom(p1, N), mom(p2, N)
    e1 = p * a1 + (1 - p) * b1
    e2 = p * a2 + (1 - p) * b2
    B.eq("mean", B.call(c, "mixture", p, p1, p2, **kw), e1)
    v = B.call(c, "mixture", p, p1, p2, variance=True, **kw)
    B.eq("variance", v, e2 - e1 * e1)
    B.eq("conditional variance", B.call(c, "conditional_variance", p, p1, p2, **kw), e2 - e1 * e1)


def portfolio(B, case):
    c = B.pkg.Life
    mean = B.real("mean", None if B.sym else -5, top=50)
    var = B.real("variance", 0, top=40, open_lo=True)
    N = B.int("N", 1, None if B.sym else 500)
    p = B.real("prob", 0, 1, open_lo=True, open_hi=True, pick=[0.05, 0.5, 0.95, 0.99])
    kw = dict(N=N)
    if case["N"] == 1:
        N, kw = 1, {}
    y = B.call(c, "portfolio_percentile", mean=mean, variance=var, prob=p, **kw)
    B.eq("percentile", y, mean * N + ndtri(p) * sqrt(var * N))
    B.eq("cdf of percentile", B.call(c, "portfolio_cdf", mean=mean, variance=var, value=y, **kw), p)
    w = B.real("value", None if B.sym else -20, top=90)
    B.eq("cdf", B.call(c, "portfolio_cdf", mean=mean, variance=var, value=w, **kw),
         Phi((w - mean * N) / sqrt(var * N)))


def rejects(B, case):
    c = B.pkg.Life
    q = B.real("q", 1, top=5, open_lo=True) if case["side"] == "above" else B.real("q", None if B.sym else -5, 0, open_hi=True)
    if case["side"] == "above":
        B.assume(q > 1)
    else:
        B.assume(q < 0)
    p = pr(B, "p")
    B.raises("bernoulli", lambda: c.bernoulli(q))
    B.raises("binomial", lambda: c.binomial(q, 2))
    B.raises("mixture p", lambda: c.mixture(q, p, p))
    B.raises("mixture p1", lambda: c.mixture(p, q, p))
    B.raises("mixture p2", lambda: c.mixture(p, p, q))
    B.raises("conditional p", lambda: c.conditional_variance(q, p, p))
    B.raises("conditional p1", lambda: c.conditional_variance(p, q, p))
    B.raises("conditional p2", lambda: c.conditional_variance(p, p, q))


def quantiles(B, case):
    qs = [B.real(f"q{k}", 0.01, 0.99) for k in range(3)]
    qs = [round(q, 3) for q in qs]
    df = B.call(B.pkg.Life, "quantiles_frame", quantiles=qs)
    for k, q in enumerate(qs):
        B.eq("quantile", df.columns[k], round(ndtri(q), 3), 1e-3)
        B.eq("probability", df.iloc[0, k], q, 1e-3)


HARNESSES = [
    ("documented defaults", L.signature("Life"), [{}]),
    ("variance", variance, [{}]), ("bernoulli", bernoulli, L.cross(values=TF)), ("binomial", binomial, [{}]),
    ("mixture", mixture, L.cross(N=["N", 1])), ("portfolio", portfolio, L.cross(N=["N", 1])),
    ("rejects", rejects, L.cross(side=["above", "below"])),
    ("quantiles", quantiles, [{}], {"bounded": True}),
]
