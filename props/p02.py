# P02 m-thly conversion, double force, annuity certain
L = use("life")


def m_of(B, case):
    return B.int("m", 1, None if B.sym else 12)


def mthly(B, case):
    c = B.pkg.Interest
    f = case["form"]
    if f == "i":
        r = B.real("i", 0, top=2, pick=[0.0, 0.05, 0.5])
        if case["m"] == 0:
            return B.eq("force", B.call(c, "mthly", m=0, i=r), log(1 + r))
        m = m_of(B, case)
        got = B.call(c, "mthly", m=m, i=r)
        B.eq("nominal", got, m * ((1 + r) ** (frac(1, m)) - 1))
        B.eq("round trip", B.call(c, "mthly", m=m, i_m=got), r)
    else:
        r = B.real("d", 0, 1, open_hi=True, top=0.9, pick=[0.0, 0.05, 0.5])
        if case["m"] == 0:
            return B.eq("force", B.call(c, "mthly", m=0, d=r), -log(1 - r))
        m = m_of(B, case)
        got = B.call(c, "mthly", m=m, d=r)
        B.eq("nominal", got, m * (1 - (1 - r) ** (frac(1, m))))
        B.eq("round trip", B.call(c, "mthly", m=m, d_m=got), r)


def to_annual(B, case):
    c = B.pkg.Interest
    m = m_of(B, case)
    if case["form"] == "i_m":
        r = B.real("i_m", 0, top=2, pick=[0.0, 0.05, 0.5])
        got = B.call(c, "mthly", m=m, i_m=r)
        B.eq("effective", got, (1 + r / m) ** m - 1)
        B.eq("round trip", B.call(c, "mthly", m=m, i=got), r)
    else:
        r = B.real("d_m", 0, 0.9, pick=[0.0, 0.05, 0.5])
        got = B.call(c, "mthly", m=m, d_m=r)
        B.eq("effective", got, 1 - (1 - r / m) ** m)
        B.eq("round trip", B.call(c, "mthly", m=m, d=got), r)


def double_force(B, case):
    c = B.pkg.Interest
    f = case["form"]
    hi = 0.9 if f == "d" else 1 if f == "v" else 2
    r = B.real(f, 0, hi, open_lo=(f == "v"), pick=[0.05, 0.1, 0.5] + ([] if f == "v" else [0.0]))
    got = B.call(c, "double_force", **{f: r})
    disc = {"i": lambda z: 1 / (1 + z), "d": lambda z: 1 - z, "v": lambda z: z, "delta": lambda z: exp(-z)}[f]
    B.eq("discount factor squared", disc(got), disc(r) ** 2)
    want = {"i": lambda z: (1 + z) ** 2 - 1, "d": lambda z: 1 - (1 - z) ** 2, "v": lambda z: z * z,
            "delta": lambda z: 2 * z}[f]
    B.eq("same form", got, want(r))


def annuity(B, case):
    i = B.real("i", 0, top=1, open_lo=True, pick=[0.05, 0.1, 0.37])
    I = B.pkg.Interest(i=i if case["rate"] == "pos" else 0)
    v = 1 / (1 + i) if case["rate"] == "pos" else 1
    due = case["due"]
    m = case["m"] if case["m"] != "m" else B.int("m", 1, None if B.sym else 12)
    if case["t"] == "W":
        got = B.call(I, "annuity", m=m, due=due)
        if m == 0:
            return B.eq("perpetuity", got, 1 / log(1 + i))
        w = v ** frac(1, m)
        return B.eq("perpetuity", got, frac(1, m) * (1 if due else w) / (1 - w))
    t = B.int("t", 0, None if B.sym else 20)
    got = B.call(I, "annuity", t=t, m=m, due=due)
    if m == 0:
        want = integral(lambda y: v ** y, 0, t)
    elif due:
        want = frac(1, m) * sum((v ** frac(1, m)) ** k for k in range(0, m * t))
    else:
        want = frac(1, m) * sum((v ** frac(1, m)) ** k for k in range(1, m * t + 1))
    B.eq("value of the payments", got, want)


def rejects(B, case):
    c = B.pkg.Interest
    B.raises("mthly without a rate", lambda: c.mthly(m=2))
    B.raises("double force without a rate", lambda: c.double_force())
    B.raises("negative frequency", lambda: c.mthly(m=-1, i=0.05))


HARNESSES = [
    ("documented defaults", L.signature(("Interest", [n for n in use("sigs").SIGS["Interest"] if n != "__init__"])), [{}]),
    ("mthly", mthly, L.cross(form=["i", "d"], m=["m", 0])),
    ("to_annual", to_annual, L.cross(form=["i_m", "d_m"])),
    ("double_force", double_force, L.cross(form=["i", "d", "v", "delta"])),
    ("annuity", annuity, L.cross(t=["n"], m=["m", 0, 1, 12], due=[True, False], rate=["zero", "pos"])
     + L.cross(t=["W"], m=["m", 0, 1], due=[True, False], rate=["pos"])),
    ("rejects", rejects, [{}]),
]
