# P06 fractional ages
L = use("life")
F = use("frac")
KIND = ["int", "frac"]


def setup(B, case, *names):
    obj, M = F.frac_life(B, case)
    x, s = L.age(B, M)
    parts = [F.part(B, n, case[n]) for n in names]
    tot = sum(p[0] for p in parts)
    # within the ages where lives are positive
    B.assume(x + s + tot + len(parts) <= M.om)
    return obj, M, x, s, parts


def clamp(B, M, x, k):
    """one-year survival above 1e-5 (the code caps the constant force there)"""
    if not M.udd:
        B.assume(M.L(x, k + 1) > 1e-5 * M.L(x, k))


def l_r(B, case):
    obj, M, x, s, ((n, f),) = setup(B, case, "r")
    B.eq("interpolated lives", B.call(obj, "l_r", x, s=s, r=n + f), F.ell(M, x, s + n, f))


def p_r(B, case):
    obj, M, x, s, ((nr, fr), (nt, ft)) = setup(B, case, "r", "t")
    F.apart(B, fr, ft)
    B.eq("survival", B.call(obj, "p_r", x, s=s, r=nr + fr, t=nt + ft),
         F.at(M, x, s, nr + nt, fr + ft) / F.at(M, x, s, nr, fr))


def p_r_exact(B, case):
    """through exactly to an integer age"""
    obj, M, x, s, ((nr, fr), (nt, _)) = setup(B, dict(case, t="int"), "r", "t")
    t = nt + (1 - fr)
    B.eq("survival", B.call(obj, "p_r", x, s=s, r=nr + fr, t=t), M.L(x, s + nr + nt + 1) / F.at(M, x, s, nr, fr))
    B.eq("mortality", B.call(obj, "q_r", x, s=s, r=nr + fr, t=t), 1 - M.L(x, s + nr + nt + 1) / F.at(M, x, s, nr, fr))


def q_r(B, case):
    obj, M, x, s, ((nr, fr), (nt, ft), (nu, fu)) = setup(B, case, "r", "t", "u")
    F.apart(B, fr, fu)
    F.apart(B, fr, fu, ft)
    B.eq("deferred mortality", B.call(obj, "q_r", x, s=s, r=nr + fr, t=nt + ft, u=nu + fu),
         (F.at(M, x, s, nr + nu, fr + fu) - F.at(M, x, s, nr + nt + nu, fr + ft + fu)) / F.at(M, x, s, nr, fr))


def mu_r(B, case):
    obj, M, x, s, ((n, f),) = setup(B, case, "r")
    clamp(B, M, x, s + n)
    got = B.call(obj, "mu_r", x, s=s, r=n + f)
    if case["r"] == "int":
        B.eq("force at an integer age", got, M.mu(x, s + n))
    else:
        B.eq("force", got, F.slope(M, x, s + n, f) / F.ell(M, x, s + n, f))


def f_r(B, case):
    obj, M, x, s, ((nr, fr), (nt, ft)) = setup(B, case, "r", "t")
    F.apart(B, fr, ft)
    if case["r"] == "int" and case["t"] == "int":
        # at integer durations only from the start of a year (one-sided derivative)
        B.assume(nt == 0)
    k = nr + nt
    if fr + ft >= 1:
        k = k + 1
    clamp(B, M, x, s + k)
    B.eq("density", B.call(obj, "f_r", x, s=s, r=nr + fr, t=nt + ft),
         F.dslope(M, x, s, nr + nt, fr + ft) / F.at(M, x, s, nr, fr))


def E_r(B, case):
    obj, M, x, s, ((nr, fr), (nt, ft)) = setup(B, case, "r", "t")
    F.apart(B, fr, ft)
    t = nt + ft
    B.eq("pure endowment", B.call(obj, "E_r", x, s=s, r=nr + fr, t=t),
         M.v(t) * F.at(M, x, s, nr + nt, fr + ft) / F.at(M, x, s, nr, fr))


def e_r_spec(M, x, s=0, t=WHOLE):
    """expected lifetime limited at t: whole years as areas W, then the part-year"""
    if M.dead(x, s):
        return HAVOC
    if t < 0:
        n, f = M.om - (x + s), 0
    else:
        n = floor(t)
        f = t - n
    tot = sum(M.W(x, s + k) for k in range(0, n))
    if f != 0:
        tot = tot + F.area(M, x, s + n, f)
    return tot / M.L(x, s)


def e_r(B, case):
    obj, M, x, s, ((n, f),) = setup(B, case, "t")
    clamp(B, M, x, s)
    if M.udd:
        M.W = lambda x, k: (M.L(x, k) + M.L(x, k + 1)) / 2
    else:
        M.W = B.fun("W", 2) if B.sym else (lambda x, k: F.area(M, x, k, 1))
    t = n + f
    if case["t"] == "int" and case["k"] == "one":
        t = 1
        want = F.area(M, x, s, 1) / M.L(x, s)
    elif case["t"] == "sub" or case["k"] == "part":
        t = f
        want = F.area(M, x, s, f) / M.L(x, s)
    else:
        if case["k"] == "whole":
            t = WHOLE
        else:
            B.assume(t > 1)
        want = e_r_spec(M, x, s, t)
    if B.sym and case["k"] not in ("one", "part"):
        # recursive calls meet the same contract; one-year values are the areas proved by the one-year case
        c = dict(E_CONTRACTS)
        B.bind(obj, M, c)
    B.eq("integral of the survival curve", B.call(obj, "e_r", x, s=s, t=t), want)


E_CONTRACTS = dict({n: L.CONTRACTS[n] for n in ["l_x", "p_x", "q_x", "mu_x", "f_x", "e_x"]},
                   e_r=Contract("e_r", e_r_spec))


def approx(B, case):
    c = B.pkg.Reserves
    e = B.real("e", 0, top=100)
    v = case["variance"]
    a = B.call(c, "e_approximate", e_complete=e, variance=v)
    b = B.call(c, "e_approximate", e_curtate=e, variance=v)
    h = frac(1, 12) if v else frac(1, 2)
    B.eq("curtate", a, e - h)
    B.eq("complete", b, e + h)
    B.eq("inverse", B.call(c, "e_approximate", e_curtate=a, variance=v), e)
    B.eq("inverse", B.call(c, "e_approximate", e_complete=b, variance=v), e)


UDD = [True, False]
HARNESSES = [
    ("documented defaults", L.signature("Fractional"), [{}]),
    ("l_r", l_r, L.cross(udd=UDD, r=KIND)),
    ("p_r", p_r, L.cross(udd=UDD, r=KIND, t=KIND)),
    ("to an integer age", p_r_exact, L.cross(udd=UDD, r=["frac"])),
    ("q_r", q_r, L.cross(udd=UDD, r=KIND, t=KIND, u=KIND)),
    ("mu_r", mu_r, L.cross(udd=UDD, r=KIND)),
    ("f_r", f_r, L.cross(udd=UDD, r=KIND, t=KIND)),
    ("E_r", E_r, L.cross(udd=UDD, r=KIND, t=KIND)),
    ("e_r", e_r, L.cross(udd=UDD, t=["int"], k=["one", "whole", "n"]) + L.cross(udd=UDD, t=["frac"], k=["n"])
     + L.cross(udd=UDD, t=["sub"], k=["part"])),
    ("e_approximate", approx, L.cross(variance=UDD)),
]
