# P15 reserve recursions.   One-year accumulation over (t, t+1] of a policy on [x]+s:
#   (V_t + P - e)(1+i) = q b + p V_{t+1},   with the reserve as part of the benefit: (V_t + P - e)(1+i) = q (b + V_{t+1}) + p V_{t+1}
L = use("life")
FR = use("frac")
P12 = use("p12")
TF = [True, False]


def life_with_reserves(B, case, hi, total=False, hook=None, cls="Reserves"):
    life, M = L.generic_life(B, cls, case)
    V = B.table("V", 0, hi, hook=hook, total=total)
    life._reserves = {"V": V}
    life.T = B.int("Tset", 0, None if B.sym else 9)
    return life, M, V


def step(M, x, y, Vt, Vn, cash, b, plus):
    """left minus right side of the accumulation of one year from [x]+y; cash = premium less expenses at the start"""
    p = M.p(x, y, 1)
    return (Vt + cash) / M.v(1) - (1 - p) * (b + (Vn if plus else 0)) - p * Vn


def draw(B, M, V_hi):
    x, s = L.age(B, M)
    t = B.int("t", 0, None if B.sym else V_hi)
    a = dict(premium=P12.amount(B, "premium"), per_premium=B.real("per_premium", 0, top=0.5),
             per_policy=P12.amount(B, "per_policy"))
    ben = B.fun("benefit", 1)
    return x, s, t, a, ben


def backward(B, case):
    life, M, V = life_with_reserves(B, case, 12)
    x, s, t, a, ben = draw(B, M, 11)
    B.assume(x + s + t < M.om)
    r = B.call(life, "t_V_backward", x, s=s, t=t, benefit=ben, reserve_benefit=case["plus"], **a)
    if not V.has(t + 1):
        B.eq("unknown without the next reserve", r, None)
    else:
        cash = a["premium"] - a["premium"] * a["per_premium"] - a["per_policy"]
        B.ensure("a value", r is not None)
        if r is not None:
            B.eq("accumulates to the next reserve", step(M, x, s + t, r, V.val(t + 1), cash, ben(t + 1), case["plus"]), 0)


def forward(B, case):
    life, M, V = life_with_reserves(B, case, 12)
    x, s, t, a, ben = draw(B, M, 13)
    B.assume(t >= 1)
    B.assume(x + s + t < M.om)
    r = B.call(life, "t_V_forward", x, s=s, t=t, benefit=ben, reserve_benefit=case["plus"], **a)
    if not V.has(t - 1):
        B.eq("unknown without the previous reserve", r, None)
    else:
        cash = a["premium"] - a["premium"] * a["per_premium"] - a["per_policy"]
        B.ensure("a value", r is not None)
        if r is not None:
            B.eq("accumulates from the previous reserve",
                 step(M, x, s + t - 1, V.val(t - 1), r, cash, ben(t), case["plus"]), 0)


def either(B, case):
    life, M, V = life_with_reserves(B, case, 12)
    x, s, t, a, ben = draw(B, M, 12)
    B.assume(t >= 1)
    B.assume(x + s + t < M.om)
    r = B.call(life, "t_V", x, s=s, t=t, benefit=ben, reserve_benefit=case["plus"], **a)
    cash = a["premium"] - a["premium"] * a["per_premium"] - a["per_policy"]
    if V.has(t):
        B.eq("given reserve", r, V.val(t))
    elif V.has(t - 1):
        B.ensure("a value", r is not None)
        if r is not None:
            B.eq("accumulates from the previous reserve",
                 step(M, x, s + t - 1, V.val(t - 1), r, cash, ben(t), case["plus"]), 0)
    elif V.has(t + 1):
        B.ensure("a value", r is not None)
        if r is not None:
            B.eq("accumulates to the next reserve", step(M, x, s + t, r, V.val(t + 1), cash, ben(t + 1), case["plus"]), 0)
    else:
        B.eq("unknown", r, None)


def fill(B, case):
    """every value the code stores: its cell was empty and it satisfies the equation with a neighbour"""
    z = {}

    def hook(t, v):
        M, x, s, V, c, T = z["M"], z["x"], z["s"], z["V"], z["c"], z["T"]
        B.ensure("only missing cells are written", not V.has(t))
        B.ensure("only durations of the policy are written", (t >= 0) & (t <= T))
        cost = c.benefit + c.settlement_policy

        def cash(k):
            return c.premium - (c.initial_policy + c.premium * c.initial_premium if k == 0
                                else c.renewal_policy + c.premium * c.renewal_premium)
        if t == 0:
            B.eq("zero at issue", v, 0)
        elif c.T > 0 and t == c.T:
            B.eq("the endowment at the end of the term", v, c.endowment)
        elif V.has(t - 1):
            B.eq("accumulates from the previous reserve",
                 step(M, x, s + t - 1, V.val(t - 1), v, cash(t - 1), cost, case["plus"]), 0)
        else:
            B.ensure("has a neighbour", V.has(t + 1))
            B.eq("accumulates to the next reserve",
                 step(M, x, s + t, v, V.val(t + 1), cash(t), cost, case["plus"]), 0)
    T = B.int("T", 1, None if B.sym else 9)
    life, M, V = life_with_reserves(B, case, T + 2, hook=hook)
    x, s = L.age(B, M)
    B.assume(x + s + T < M.om)
    life.T = T
    B.assume(V.has(0))
    zz = P12.terms(B, dict(endowment="any"))
    zz["T"] = WHOLE if case["T"] == "W" else B.int("cT", 1, None if B.sym else 10)
    c = B.module("policyvalues").Contract(**zz)
    z.update(M=M, x=x, s=s, V=V, c=c, T=T)
    B.invariant_for(life)
    k = B.int("k", 0, None if B.sym else T + 2)
    had, val = V.had(k), V.val(k) if V.had(k) else None
    r = B.call(life, "fill_reserves", x, s=s, reserve_benefit=case["plus"], contract=c, modifies=("self._reserves",))
    B.ensure("returns the object", r is life)
    if had:
        B.ensure("supplied cell is still there", V.has(k))
        B.eq("supplied cell keeps its value", V.val(k), val)


def setter(B, case):
    """exactly the given values, zero at issue, the endowment at the end"""
    life, M, V = life_with_reserves(B, case, 8)
    life.T = B.int("T0", 0, None if B.sym else 8)
    T = B.int("T", 0, None if B.sym else 9)
    e = P12.amount(B, "e")
    given = {}
    if case["given"]:
        ks = case["given"]
        given = {k: P12.amount(B, f"v{k}") for k in ks}
    old = life.T
    k = B.int("k", 0, None if B.sym else 10)
    had = True if V.has(k) else False
    val = V.val(k) if had else None
    r = B.call(life, "set_reserves", T=T, endowment=e, V=dict(given), modifies=("self._reserves", "self.T"))
    want = T if T > 0 else old
    if given and want < len(given) - 1:
        want = len(given) - 1
    B.ensure("returns the object", r is life)
    B.eq("term", life.T, want)
    Vn = life._reserves["V"]
    if k == want:
        B.eq("endowment at the end of the term", Vn[k], e)
    elif k == 0:
        B.eq("zero at issue", Vn[k], 0)
    else:
        hit = [g for g in given if k == g]
        if hit:
            B.eq("given value", Vn[k], given[hit[0]])
        elif had:
            B.eq("earlier value", Vn[k], val)
        else:
            B.ensure("nothing else is added", k not in Vn)


def interim_life(B, case, hi):
    life, M = FR.frac_life(B, case)
    V = B.table("V", 0, hi)
    life._reserves = {"V": V}
    x = B.int("x", 0, None if B.sym else M.om - 2)
    s = B.int("s", 0, None if B.sym else M.om - 2 - x)
    n, f = FR.part(B, "r", case["r"], 2)
    B.assume(x + s + n + 1 < M.om)
    return life, M, V, x, s, n, f


def r_backward(B, case):
    life, M, V, x, s, n, f = interim_life(B, case, 25)
    b = P12.amount(B, "b")
    r = B.call(life, "r_V_backward", x, s=s, r=n + f, benefit=b)
    k = s + n
    if not V.has(k + 1):
        B.eq("unknown without the next reserve", r, None)
        return
    B.ensure("a value", r is not None)
    if r is not None:
        p = FR.at(M, x, s, n + 1, 0) / FR.at(M, x, s, n, f)
        B.eq("accumulates to the next reserve", r / M.v(1 - f), p * V.val(k + 1) + (1 - p) * b)


def r_forward(B, case):
    life, M, V, x, s, n, f = interim_life(B, case, 25)
    b, P = P12.amount(B, "b"), P12.amount(B, "premium")
    r = B.call(life, "r_V_forward", x, s=s, r=n + f, benefit=b, premium=P)
    k = s + n
    if not V.has(k):
        B.eq("unknown without the previous reserve", r, None)
        return
    B.ensure("a value", r is not None)
    if r is not None:
        # deaths in the part-year are paid at its year's end
        p = FR.at(M, x, s, n, f) / FR.at(M, x, s, n, 0)
        B.eq("accumulates from the previous reserve", (V.val(k) + P) / M.v(f), p * r + (1 - p) * b * M.v(1 - f))


def tV_spec(M, x, s=0, t=0, premium=0, reserve_benefit=False, per_premium=0, per_policy=0):
    pass


def r_spec(M, x, s=0, r=0, benefit=1):
    pass


def fill_spec(M, x, s=0, reserve_benefit=False, contract=None):
    pass


def fresh_table(B, case):
    """a new model has no reserves and no term until they are set"""
    life = B.pkg.Reserves()
    life.set_interest(delta=L.rate(B, case))
    B.eq("no term yet", life.T, 0)
    B.ensure("no reserves yet", len(life._reserves["V"]) == 0)
    e, v = P12.amount(B, "e"), P12.amount(B, "v")
    life.set_reserves(V={0: v, 1: v}, endowment=e)
    B.eq("term of the table given", life.T, 1)
    B.eq("zero at issue", life._reserves["V"][0], 0)
    B.eq("endowment at the end of the term", life._reserves["V"][1], e)


SP = dict(t_V=tV_spec, t_V_forward=tV_spec, t_V_backward=tV_spec, r_V_backward=r_spec, fill_reserves=fill_spec)

HARNESSES = [
    ("documented defaults", L.signature("Reserves"), [{}]),
    ("t_V_backward", backward, L.cross(plus=TF)),
    ("t_V_forward", forward, L.cross(plus=TF)),
    ("t_V", either, L.cross(plus=TF)),
    ("fill_reserves", fill, L.cross(plus=TF, T=["W", "n"]), dict(limit=120)),
    ("set_reserves", setter, L.cross(given=[(), (2,), (1, 3), (0, 1, 2)])),
    ("a fresh reserves table", fresh_table, [{}]),
    ("r_V_backward", r_backward, L.cross(udd=TF, r=["sub", "frac", "int"])),
    ("r_V_forward", r_forward, L.cross(udd=TF, r=["sub", "frac", "int"])),
    ("defaults", L.defaults(list(SP), "Reserves", SP), [{}]),
]
