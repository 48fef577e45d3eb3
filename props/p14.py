# P14 present-value random variables and their inverses
L = use("life")
V = use("p12")
TF = [True, False]


def solve(M, fun, target, grid, mad=False):
    # the same equation is solved the same way each time
    k = repr(target)
    if k not in M.roots:
        M.roots[k] = root_of(fun, target)
    return M.roots[k]


def found_time(M, L, contract=None):
    return M.found


def fr(M, x, s=0, r=0, t=0):
    return M.fr(x, s, r, t)


def pr(M, x, s=0, r=0, t=1):
    return M.pr(x, s, r, t)


def life_of(B, case):
    """a life with survival positive at all times, so that percentiles exist"""
    om = B.int("omega", 40, None if B.sym else 100)
    Lf = B.lives(om, extinct=False)
    M = L.Model(Lf, om, L.rate(B, case))
    if case.get("rate") == "pos":
        # rates below the library's zero test (1e-6) are treated as zero by design
        B.assume(M.delta >= case.get("least", 1e-4))
    M.roots = {}
    M.fr, M.pr = B.fun("f_r", 4), B.fun("p_r", 4)
    obj = B.pkg.Reserves()
    obj.set_survival(S=lambda x, s, t: M.p(x, s, t), f=lambda x, s, t: M.f(x, s, t), mu=lambda x, t: M.mu(x, t), l=Lf,
                     maxage=om)
    obj.set_interest(delta=M.delta)
    B.bind(obj, M, dict(L.CONTRACTS, solve=Contract("solve", solve), f_r=Contract("f_r", fr), p_r=Contract("p_r", pr),
                        L_to_t=Contract("L_to_t", found_time)))
    return obj, M


def time(B, name="t", lo=0):
    return B.real(name, lo, None if B.sym else 30, pick=[0.0, 0.5, 1.0, 2.0, 3.7, 10.0] if lo == 0 else None)


def pv_ins(M, t, disc):
    return M.v(floor(t) + 1 if disc else t)


def pv_ann(M, t, disc):
    """one a year, or continuously, until death at t"""
    if disc:
        return sum(M.v(k) for k in range(0, floor(t) + 1))
    return integral(lambda y: M.v(y), 0, t)


def Z_from_t(B, case):
    obj, M = life_of(B, case)
    t = time(B)
    B.eq("discounted benefit", B.call(obj, "Z_from_t", t, discrete=case["discrete"]), pv_ins(M, t, case["discrete"]))


def Y_from_t(B, case):
    obj, M = life_of(B, case)
    t = time(B)
    B.eq("discounted payments", B.call(obj, "Y_from_t", t, discrete=case["discrete"]), pv_ann(M, t, case["discrete"]))


def per_year(B, case):
    """EPV of the payment of year t"""
    obj, M = life_of(B, case)
    x, s = B.int("x", 0, None if B.sym else 20), B.int("s", 0, None if B.sym else 5)
    t = time(B)
    k = floor(t)
    if case["discrete"]:
        B.eq("death benefit of the year", B.call(obj, "Z_x", x, s=s, t=t), M.q(x, s, k) * M.v(k + 1))
        B.eq("annuity payment of the year", B.call(obj, "Y_x", x, s=s, t=t), M.v(k) * M.p(x, s, k))
    else:
        B.eq("death benefit rate", B.call(obj, "Z_x", x, s=s, t=t, discrete=False),
             obj.f_r(x, s=s, t=t) * M.v(t))
        B.eq("annuity rate", B.call(obj, "Y_x", x, s=s, t=t, discrete=False), obj.p_r(x, s=s, t=t) * M.v(t))


def prob(B):
    return B.real("prob", 0, 1, open_lo=True, open_hi=True, pick=[0.3, 0.5, 0.8, 0.9])


def Z_percentile(B, case):
    obj, M = life_of(B, case)
    x = B.int("x", 0, None if B.sym else 20)
    q = prob(B)
    d = case["discrete"]
    t = B.call(obj, "Z_t", x, q, discrete=d)
    z = B.call(obj, "Z_from_prob", x, q, discrete=d)
    B.given(t >= 0)
    if d:
        B.ensure("whole years", t == floor(t))
        B.ensure("alive with at least the given probability", M.p(x, 0, t) >= q - 1e-6)
        if not B.sym:
            B.eq("value at the percentile", z, M.v(t + 1))
    else:
        B.eq("percentile of the lifetime", M.p(x, 0, t), q)
        B.given(t < 1e6)
        if not B.sym:
            B.eq("value at the percentile", z, M.v(t))
        B.eq("probability of the percentile", B.call(obj, "Z_to_prob", x, z), q, tol=1e-5)


def Y_percentile(B, case):
    obj, M = life_of(B, case)
    x = B.int("x", 0, None if B.sym else 20)
    q = prob(B)
    d = case["discrete"]
    t = B.call(obj, "Y_t", x, q, discrete=d)
    y = B.call(obj, "Y_from_prob", x, q, discrete=d)
    B.given(t >= 0)
    if d:
        B.ensure("whole years", t == floor(t))
        B.ensure("alive with at most the complement", M.p(x, 0, t) <= 1 - q + 1e-6)
        if not B.sym:
            B.eq("value at the percentile", y, pv_ann(M, t, True))
    else:
        B.eq("percentile of the lifetime", M.p(x, 0, t), 1 - q)
        if not B.sym:
            B.eq("value at the percentile", y, pv_ann(M, t, False))
        B.eq("probability of the percentile", B.call(obj, "Y_to_prob", x, y), q, tol=1e-5)


def inverses(B, case):
    obj, M = life_of(B, case)
    t = time(B)
    x = B.int("x", 0, None if B.sym else 20)
    if case["of"] == "Z":
        z = B.call(obj, "Z_from_t", t, discrete=False)
        B.eq("time of the value", B.call(obj, "Z_to_t", z), t)
        B.eq("probability of the value", B.call(obj, "Z_to_prob", x, z), M.p(x, 0, t))
        w = B.real("w", 0, 1, open_lo=True, pick=[0.2, 0.5, 0.9])
        B.eq("value of the time", obj.Z_from_t(B.call(obj, "Z_to_t", w), discrete=False), w)
    else:
        y = B.call(obj, "Y_from_t", t, discrete=False)
        B.eq("time of the value", B.call(obj, "Y_to_t", y), t)
        B.eq("probability of the value", B.call(obj, "Y_to_prob", x, y), 1 - M.p(x, 0, t))


def loss(M, t, z):
    """insurer's loss when death occurs at t: claims less premiums net of expenses paid until death or the end of term"""
    T, d = z["T"], z["discrete"]
    P = z["premium"]
    first = z["initial_policy"] - z["renewal_policy"] + (z["initial_premium"] - z["renewal_premium"]) * P
    profit = P - P * z["renewal_premium"] - z["renewal_policy"]
    if T > 0 and t >= T:
        return z["endowment"] * M.v(T) + first - profit * pv_ann(M, T - 1 if d else T, d)
    return (z["benefit"] + z["settlement_policy"]) * pv_ins(M, t, d) + first - profit * pv_ann(M, t, d)


def contract_of(B, case):
    z = V.terms(B, dict(case, endowment="any"))
    z["T"] = WHOLE if case["T"] == "W" else B.int("T", 1, None if B.sym else 12)
    return z, B.module("policyvalues").Contract(**z)


def L_from_t(B, case):
    obj, M = life_of(B, case)
    z, c = contract_of(B, case)
    t = time(B)
    B.eq("loss", B.call(obj, "L_from_t", t, contract=c), loss(M, t, z))


def L_from_prob(B, case):
    obj, M = life_of(B, case)
    z, c = contract_of(B, case)
    x = B.int("x", 0, None if B.sym else 20)
    q = prob(B)
    got = B.call(obj, "L_from_prob", x, q, contract=c)
    t = obj.Z_t(x, q, discrete=z["discrete"])
    M.found = t
    B.given(t >= 0)
    B.eq("loss at the percentile of the lifetime", got, loss(M, t, z))


def L_inverse(B, case):
    """continuous whole life cover: the loss falls as the lifetime grows, and the time of a loss attained at t0 has it"""
    obj, M = life_of(B, case)
    z, c = contract_of(B, dict(case, T="W", discrete=False))
    z["discrete"] = False
    x = B.int("x", 0, None if B.sym else 20)
    B.assume(z["premium"] - z["premium"] * z["renewal_premium"] - z["renewal_policy"] > 0.01)
    t0 = B.real("t0", 1, top=25)
    B.witness(t0)
    want = B.call(obj, "L_from_t", t0, contract=c)
    t = B.call(obj, "L_to_t", want, contract=c)
    M.found = t
    B.given(t >= 0)
    B.eq("loss at the time found", loss(M, t, z), want, tol=1e-4)
    B.eq("probability", B.call(obj, "L_to_prob", x, want, contract=c), M.p(x, 0, t), tol=1e-5)


def L_inverse_discrete(B, case):
    """whole life cover with yearly payments: the year found is a whole one, and has the loss asked for whenever the
    search (whose result is only as good as its numerical minimiser) has found a time with that loss"""
    obj, M = life_of(B, case)
    z, c = contract_of(B, dict(case, T="W", discrete=True))
    z["discrete"] = True
    c.discrete = True
    B.assume(z["premium"] - z["premium"] * z["renewal_premium"] - z["renewal_policy"] > 0.01)
    t0 = B.real("t0", 1, top=25)
    B.witness(t0)
    want = B.call(obj, "L_from_t", t0, contract=c)
    t = B.call(obj, "L_to_t", want, contract=c)
    M.found = t
    if not B.sym:
        found = obj.solve(lambda y: obj.L_from_t(y, c), target=want, grid=(0, obj._MAXAGE), mad=True)
        B.given(found >= 0)
        B.given(abs(obj.L_from_t(found, c) - want) < 1e-12)
    B.given(t >= 0)
    B.ensure("whole years", t == floor(t))
    B.eq("loss of the year found", B.call(obj, "L_from_t", t, contract=c), want)


SP = dict(
    Z_x=lambda M, x, s=0, t=0, discrete=True: 0, Z_t=lambda M, x, prob, discrete=True: 0,
    Z_from_t=lambda M, t, discrete=True: 0, Z_from_prob=lambda M, x, prob, discrete=True: 0,
    Z_to_t=lambda M, Z: 0, Z_to_prob=lambda M, x, Z: 0,
    Y_x=lambda M, x, s=0, t=1, discrete=True: 0, Y_t=lambda M, x, prob, discrete=True: 0,
    Y_from_t=lambda M, t, discrete=True: 0, Y_from_prob=lambda M, x, prob, discrete=True: 0,
    Y_to_t=lambda M, Y: 0, Y_to_prob=lambda M, x, Y: 0,
    L_from_t=lambda M, t, contract=None: 0, L_from_prob=lambda M, x, prob, contract=None: 0,
    L_to_t=lambda M, L, contract=None: 0)

HARNESSES = [
    ("documented defaults", L.signature(("Insurance", [n for n in use("sigs").SIGS["Insurance"] if n.startswith("Z")]), ("Annuity", [n for n in use("sigs").SIGS["Annuity"] if n.startswith("Y")])), [{}]),
    ("Z_from_t", Z_from_t, L.cross(discrete=TF)),
    ("Y_from_t", Y_from_t, L.cross(discrete=TF, rate=["pos", "zero"])),
    ("Z_x, Y_x", per_year, L.cross(discrete=TF)),
    ("Z percentile", Z_percentile, L.cross(discrete=TF, rate=["pos"])),
    ("Y percentile", Y_percentile, L.cross(discrete=TF, rate=["pos", "zero"])),
    ("inverses", inverses, [dict(of="Z", rate="pos"), dict(of="Y", rate="pos"), dict(of="Y", rate="zero")]),
    ("L_from_t", L_from_t, L.cross(T=["W", "n"], discrete=TF, rate=["pos", "zero"])),
    ("L_from_prob", L_from_prob, L.cross(T=["W", "n"], discrete=TF, rate=["pos"])),
    ("L_to_t, L_to_prob", L_inverse, L.cross(rate=["pos"], least=[0.01])),
    ("L_to_t, yearly", L_inverse_discrete, L.cross(rate=["pos"], least=[0.01])),
    ("defaults", L.defaults(list(SP), "PolicyValues", SP), [{}]),
]
