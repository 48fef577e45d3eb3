# Fractional-age ghost: lives interpolated between the integer ages of a Model
L = use("life")


def part(B, name, kind, hi=4):
    """a duration n + f with f = 0 or 1e-5 <= f <= 1 - 1e-5 (the code treats closer values as integers)"""
    n = B.int("n_" + name, 0, None if B.sym else hi)
    if kind == "int":
        return n, 0
    if kind == "sub":
        n = 0
    return n, B.real("f_" + name, 1e-5, 1 - 1e-5)


def apart(B, *fs):
    """sums of fractions are integers or at least 1e-5 away from one"""
    tot = 0
    for f in fs:
        tot = tot + f
    if isinstance(tot, int):
        return
    for k in range(1, len(fs) + 1):
        B.assume((tot <= k - 1e-5) | (tot >= k + 1e-5))


def ell(M, x, k, f):
    """lives at age [x] + k + f, 0 <= f <= 1"""
    if f == 0:
        return M.L(x, k)
    if M.udd:
        return M.L(x, k) * (1 - f) + M.L(x, k + 1) * f
    return M.L(x, k) ** (1 - f) * M.L(x, k + 1) ** f


def at(M, x, s, n, f):
    """lives at [x] + s + n + f where f may exceed one"""
    while f >= 1:
        n, f = n + 1, f - 1
    return ell(M, x, s + n, f)


def slope(M, x, k, f):
    """minus the derivative of the interpolated lives (right derivative at f = 0)"""
    if M.udd:
        return M.L(x, k) - M.L(x, k + 1)
    return -log(M.L(x, k + 1) / M.L(x, k)) * ell(M, x, k, f)


def dslope(M, x, s, n, f):
    while f >= 1:
        n, f = n + 1, f - 1
    return slope(M, x, s + n, f)


def area(M, x, k, f):
    """integral of the interpolated lives over [k, k + f], 0 <= f <= 1"""
    return integral(lambda y: ell2(M, x, k, y), 0, f)


def ell2(M, x, k, y):
    if M.udd:
        return M.L(x, k) * (1 - y) + M.L(x, k + 1) * y
    return M.L(x, k) ** (1 - y) * M.L(x, k + 1) ** y


def frac_life(B, case, cls="Reserves"):
    """life with survival given at integer ages and an assumption between them"""
    udd = case["udd"]
    om = B.int("omega", 3, None if B.sym else 25)
    Lf = B.lives(om, extinct=udd)
    M = L.Model(Lf, om, L.rate(B, case))
    M.udd = udd
    obj = getattr(B.pkg, cls)(udd=udd)
    obj.set_survival(S=lambda x, s, t: M.p(x, s, t), f=lambda x, s, t: M.f(x, s, t),
                     mu=lambda x, t: M.mu(x, t), l=Lf, maxage=om)
    obj.set_interest(delta=M.delta)
    names = ["l_x", "p_x", "q_x", "mu_x", "f_x"]
    B.bind(obj, M, {n: L.CONTRACTS[n] for n in names})
    return obj, M
