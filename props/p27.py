# P27 term arithmetic and numerical helpers
L = use("life")
TF = [True, False]


def term(B, name, kind):
    return WHOLE if kind == "W" else B.int(name, None if kind == "any" else 0, None if B.sym else 30)


def add_term(B, case):
    obj = B.pkg.Actuarial()
    t, n = term(B, "t", case["t"]), B.int("n", None if B.sym else -5, None if B.sym else 30) if case["n"] == "n" else WHOLE
    if case["t"] == "n":
        B.assume(t >= 0)
    if case["n"] == "n":
        B.assume(n > -900)
    B.eq("sum of terms", B.call(obj, "add_term", t, n), WHOLE if "W" in (case["t"], case["n"]) else t + n)


def max_term(B, case):
    """callers: a term, or whole life, of a life alive at the end of the deferral"""
    obj = B.pkg.Actuarial()
    om = B.int("omega", 0, None if B.sym else 120)
    obj._MAXAGE = om
    x = B.int("x", 0, None if B.sym else 90)
    u = B.int("u", 0, None if B.sym else 30) if case["u"] else 0
    t = term(B, "t", case["t"])
    B.assume(x + u <= om)
    got = B.call(obj, "max_term", x, t, u) if case["u"] else B.call(obj, "max_term", x, t=t)
    if case["t"] == "W":
        B.eq("whole life lasts to the limiting age", got, om - x - u)
    elif x + u + t > om:
        B.eq("cut at the limiting age", got, om - x - u)
    else:
        B.eq("kept", got, t)


def isclose(B, case):
    r, target = B.real("r", None if B.sym else -1000, top=1000), B.real("target", None if B.sym else -1000, top=1000)
    tol = B.real("tol", 0 if B.sym else 1e-5, open_lo=True, top=1)
    if not B.sym:
        target = B.rng.choice([target, r + tol * B.rng.uniform(-2, 2)])
        B.assume(abs(abs(r - target) - tol) > 1e-7)
    call = lambda *a, **k: B.call(B.pkg.Actuarial, "isclose", *a, **k)
    B.ensure("within the tolerance", call(r, target, abs_tol=tol) == (abs(r - target) <= tol))
    if not B.sym:
        B.assume(abs(r) > 1e-5)
    B.ensure("of zero", call(r, abs_tol=tol) == (abs(r) <= tol))


def unknown(B, case):
    """an arbitrary function (concretely one of a few smooth ones)"""
    if B.sym:
        return B.fun("f", 1)
    r = B.rng
    a, b, c = r.uniform(.2, 2), r.uniform(-1, 1), r.uniform(.02, .2)
    return r.choice([lambda t: a * t + b, lambda t: a * exp(-c * t) + b, lambda t: a * t * t + b * t + c])


def integrals(B, case):
    f = unknown(B, case)
    lo = B.real("lo", None if B.sym else -3, top=200)
    hi = B.real("hi", None if B.sym else -3, top=200)
    want = integral(f, lo, hi) if case["order"] == "up" else -integral(f, hi, lo)
    B.assume(lo <= hi if case["order"] == "up" else hi < lo)
    call = lambda *a, **k: B.call(B.pkg.Actuarial, "integral", *a, **k)
    B.eq("integral over the limits", call(f, lo, hi), want)
    B.eq("limits by name", call(fun=f, upper=hi, lower=lo), want)


def derivatives(B, case):
    f = B.smooth("f", 1)
    x = B.real("x", None if B.sym else -5, top=50)
    B.eq("derivative", B.call(B.pkg.Actuarial, "derivative", f, x), f.d(x), tol=1e-6)
    B.eq("by name", B.call(B.pkg.Actuarial, "derivative", fun=f, x=x), f.d(x), tol=1e-6)


def solves(B, case):
    """whenever the library root finder converges; it starts from the best of five guesses over the grid"""
    seen = []
    if B.sym:
        g = B.fun("f", 1)
        target = B.real("target")
        lo, hi = B.real("lo"), B.real("hi")
        B.assume(lo < hi)
    else:
        r = B.rng
        a, b = r.uniform(.5, 2), r.uniform(-1, 1)
        c = r.uniform(.05, .3)
        lo, hi = sorted((B.real("lo", 0, 3), B.real("hi", 4, 10)))
        g = r.choice([lambda t: a * t + b, lambda t: a * t ** 3 + t + b, lambda t: -a * t + b * t * 0 + c])
        target = g(lo + (hi - lo) * r.random())
    def f(t):
        seen.append(t)
        return g(t)
    grid = dict(list=[lo, hi], tuple=(hi, lo), value=lo)[case["grid"]]
    got = B.call(B.pkg.Actuarial, "solve", f, target, grid) if case["pos"] else \
        B.call(B.pkg.Actuarial, "solve", fun=f, grid=grid, target=target)
    B.eq("takes the target value", g(got), target, tol=1e-6)
    B.eq("evaluated there last", seen[-1], got)
    if B.sym:
        start = B.starts()[-1]
        if case["grid"] == "value":
            B.eq("starts from the guess", start, lo)
        else:
            best = abs(g(start) - target)
            B.ensure("starts from the best of five guesses",
                     all(best <= abs(g(lo + (hi - lo) * i / 4) - target) for i in range(5)))


def minimum(B, case):
    """mad: closest to the target rather than equal to it"""
    w, target = B.real("w", 1, 9), B.real("target", None if B.sym else 0, top=5)
    a, m = B.real("a", 0 if B.sym else .5, top=2, open_lo=True), B.real("gap", 0, top=1)
    if case["shape"] == "crosses":
        m = 0
        h = lambda t: target + a * (t - w)
    else:
        h = lambda t: target + m + a * (t - w) ** 2
    B.witness(w)
    got = B.call(B.pkg.Actuarial, "solve", h, target, [B.real("lo", 0, 1), B.real("hi", 9, 10)], mad=True)
    B.eq("closest to the target", 1 + abs(h(got) - target), 1 + m, tol=1e-5)


def constants(B, case):
    A = B.pkg.Actuarial
    B.eq("whole life", A.WHOLE, -999)
    B.eq("variance", A.VARIANCE, -2)
    B.ensure("they are not terms or moments", A.WHOLE < 0 and A.VARIANCE < 0 and A.WHOLE == A._WHOLE
             and A.VARIANCE == A._VARIANCE)


HARNESSES = [
    ("documented defaults", L.signature("Actuarial"), [{}]),
    ("add_term", add_term, L.cross(t=["W", "n"], n=["W", "n"])),
    ("max_term", max_term, L.cross(t=["W", "n"], u=TF)),
    ("isclose", isclose, [{}]),
    ("integral", integrals, L.cross(order=["up", "down"])),
    ("derivative", derivatives, [{}]),
    ("solve", solves, L.cross(grid=["list", "value"], pos=[True])
     + L.cross(grid=["tuple", "value"], pos=[False])),
    ("solve for the closest", minimum, L.cross(shape=["bowl", "crosses"])),
    ("constants", constants, [{}]),
]
