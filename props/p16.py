# P16 full preliminary term reserves
L = use("life")
P12 = use("p12")
TF = [True, False]


def premium(B, case):
    life, M = L.generic_life(B, "Reserves", case)
    x, s = L.age(B, M)
    b = P12.amount(B, "b", open_lo=True)
    if case["n"] == "W":
        n = WHOLE
        B.assume(x + s + 1 < M.om)
        cap = M.om - (x + s + 1)
    else:
        n = B.int("n", 2, None if B.sym else 20)
        B.assume(x + s + 1 < M.om)
        cap = M.cap(x + s + 1, n - 1)
    r = B.call(life, "FPT_premium", x, s=s, n=n, b=b, first=case["first"])
    if case["first"]:
        B.eq("cost of one year of cover", r, b * M.v(1) * M.q(x, s, 0))
    else:
        A, a, E = P12.factors(M, x, s + 1, cap, True)
        B.eq("net level premium of the policy issued a year later", r, b * A / a)


def value(B, case):
    life, M = L.generic_life(B, "Reserves", case)
    x, s = L.age(B, M)
    b = P12.amount(B, "b", open_lo=True)
    e = {"equal": b, "zero": 0, "any": None}[case["endowment"]]
    if e is None:
        e = P12.amount(B, "e")
    t = B.int("t", 0, None if B.sym else 12)
    B.assume(x + s + t < M.om)
    B.assume(x + s + 1 < M.om)
    if case["n"] == "W":
        n, cap, e2 = WHOLE, M.om - (x + s + 1), 0
    else:
        n = B.int("n", 2, None if B.sym else 20)
        B.assume(t <= n)
        cap, e2 = M.cap(x + s + 1, n - 1), e
    d = case["discrete"]
    r = B.call(life, "FPT_policy_value", x, s=s, t=t, b=b, n=n, endowment=e, discrete=d)
    if t <= 1:
        B.eq("zero in the first year", r, 0)
    else:
        A0, a0, E0 = P12.factors(M, x, s + 1, cap, d)
        A1, a1, E1 = P12.factors(M, x, s + t, cap - (t - 1), d)
        P = (b * A0 + e2 * E0) / a0
        B.eq("net reserve of the policy issued a year later", r, b * A1 + e2 * E1 - P * a1)


def prem_spec(M, x, s=0, n=WHOLE, b=1, first=False):
    pass


def val_spec(M, x, s=0, t=0, b=1, n=WHOLE, endowment=0, discrete=True):
    pass


SP = dict(FPT_premium=prem_spec, FPT_policy_value=val_spec)
HARNESSES = [
    ("FPT_premium", premium, L.cross(n=["W", "n"], first=TF, rate=["pos"]) + L.cross(n=["n"], first=TF, rate=["zero"])),
    ("FPT_policy_value", value, L.cross(n=["W"], endowment=["zero"], discrete=TF, rate=["pos"])
     + L.cross(n=["n"], endowment=["equal", "zero", "any"], discrete=TF, rate=["pos"])),
    ("defaults", L.defaults(list(SP), "Reserves", SP), [{}]),
]
