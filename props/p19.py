# P19 select tables.  Cells [x]+s for s = 0..n (n = select period; s = n is the ultimate column, at attained age x+n).
L = use("life")
from pyvc.sym import Num
TF = [True, False]


def cell(n, x, s):
    """where the one-year values of [x]+s are: across the select period, then down the ultimate column"""
    return (x + s - n, n) if s > n else (x, s)


def nxt(n, x, s):
    return (x + 1, n) if s >= n else (x, s + 1)


class Sel(L.Model):
    """ghost q in (0,1) by cell; l, e, A, a related to it year by year"""

    def __init__(self, B, n, lo, hi, delta):
        self.B, self.n, self.lo, self.hi, self.delta = B, n, lo, hi, delta
        self.om = hi + n + 1
        if B.sym:
            self.odds = B.fun("odds", 2, lo="pos")
            self.g = {c: B.fun("g_" + c, 2, lo="pos" if c in "le" else None) for c in "leAa"}
        else:
            r = B.rng
            self.w = [r.uniform(.05, .45) for _ in range(60)]
            self.scale = 100.0
            self.tail = {"e": r.uniform(.5, 3), "A": r.uniform(.3, .9), "a": r.uniform(1, 4)}

    def q(self, x, s):
        if self.B.sym:
            return 1 / (1 + self.odds(x, s))
        return self.w[(7 * x + 3 * s) % 60]

    def value(self, c):
        n = self.n
        v = self.v(1)

        def val(x, s):
            q = self.q(x, s)
            if c == "q":
                return q
            if c == "d":
                return self.value("l")(x, s) * q
            if self.B.sym:
                return self.g[c](x, s)
            if c == "l":
                if s < n:
                    return val(x, s + 1) / (1 - q)
                return self.scale if x <= self.lo else val(x - 1, n) * (1 - self.q(x - 1, n))
            y = self.tail[c] if x >= self.hi and s >= n else val(*nxt(n, x, s))
            return self.step(c, q, y, v)
        return val

    def step(self, c, q, y, v):
        """value at a cell from the value at the next"""
        if c == "e":
            return (1 - q) * (1 + y)
        if c == "A":
            return v * (q + (1 - q) * y)
        if c == "a":
            return 1 + v * (1 - q) * y

    def links(self, x, s, col="qleAa"):
        """the one-year relations that hold of the ghost between a cell and its neighbours"""
        if not self.B.sym:
            return
        n = self.n
        froms = [(x, s)]
        if s >= 1:
            froms.append((x, s - 1))
        if s == n:
            froms.append((x - 1, n))
        cols = "leAa" if "q" in col else col
        for f in froms:
            t = nxt(n, *f)
            q = self.q(*f)
            if "l" in cols or "d" in cols:
                self.B.ghost(self.g["l"](*t) == self.g["l"](*f) * (1 - q))
            for c in "eAa":
                if c in cols:
                    self.B.ghost(self.g[c](*f) == self.step(c, q, self.g[c](*t), self.v(1)))


def draw(B, case, top=3):
    n = B.int("n", 0, None if B.sym else 2)
    lo = B.int("minage", 0, None if B.sym else 2)
    hi = B.int("maxage", 0, None if B.sym else 2 + top)
    B.assume(lo <= hi)
    delta = L.rate(B, case)
    life = B.pkg.SelectLife(periods=n)
    life._MINAGE, life._MAXAGE = lo, hi
    life.set_interest(delta=delta)
    return life, Sel(B, n, lo, hi, delta)


# ---------------------------------------------------------------------------------------------- filling
def fill(B, case):
    z = {}

    def hook(c):
        def store(x, s, v):
            M = z["M"]
            B.ensure(f"only missing cells of {c} are written", not life._select[c].has(x, s))
            B.ensure("only cells of the table", (M.lo <= x) & (x <= M.hi) & (0 <= s) & (s <= M.n))
            M.links(x, s, c)
            B.eq(f"value implied for {c}", v, M.value(c)(x, s), tol=None if B.sym else 1e-5)
        return store
    life, M = draw(B, case)
    z["M"] = M
    for c in "ldqAae":
        life._select[c] = B.rows(c, M.lo, M.hi, M.n, M.value(c), hook=hook(c), nones=not B.sym)
    radix = B.real("radix", 0, top=1000, open_lo=True, pick=[1000.0, 100.0])
    if case["start"] == "radix":
        # lives are relative to the radix
        if B.sym:
            B.assume(M.value("l")(M.lo, 0) == radix)
        else:
            k = radix / M.value("l")(M.lo, 0)
            M.scale *= k
            for c in "ld":
                life._select[c] = B.rows(c, M.lo, M.hi, M.n, M.value(c), hook=hook(c), nones=not B.sym)
    else:
        B.assume(life._select["l"].has(M.lo, 0))
    def ended():
        return life._select["l"]._p("row", M.lo)
    B.invariant_for(life, ended, "a fill loop that has ended went once over the ages, so the row of the first age exists")
    was = {}
    if not B.sym:           # follows from the obligation that only missing cells are written
        was = {c: {(x, s): v for x, r in life._select[c].items() for s, v in r.items() if v is not None} for c in "ldqAae"}
    r = B.call(life, "fill_table", radix=radix, modifies=("self._select",))
    B.ensure("returns the table", r is life)
    for c in was:
        for x, s in was[c]:
            B.eq(f"supplied cell of {c} stays", life._select[c][x][s], was[c][(x, s)])


def complete(B, case):
    """two ages: the supplied cells determine every other cell"""
    n, lo = case["n"], case["lo"]
    hi = lo + 1
    delta = L.rate(B, case)
    M = Sel(B, n, lo, hi, delta)
    radix = B.real("radix", 0, top=1000, open_lo=True, pick=[1000.0])
    if B.sym:
        B.assume(M.value("l")(lo, 0) == radix)
    else:
        M.scale *= radix / M.value("l")(lo, 0)
    for x in (lo, hi):
        for s in range(n + 1):
            M.links(x, s)
    life = B.pkg.SelectLife()
    life.set_interest(delta=delta)
    given = {}
    for c, where in case["given"].items():
        given[c] = {x: [M.value(c)(x, s) if where in ("all", (x - lo, s)) else None for s in range(n + 1)] for x in (lo, hi)}
    r = B.call(life, "set_table", radix=radix, modifies=("self._select", "self.periods_", "self._MINAGE", "self._MAXAGE"), **given)
    B.ensure("returns the table", r is life)
    B.eq("select period", life.periods_, n)
    B.eq("first age", life._MINAGE, lo)
    B.eq("last age", life._MAXAGE, hi)
    for c in case["known"]:
        for x in (lo, hi):
            for s in range(n + 1):
                if c == "l" and "l" not in given and x > lo and s < n:
                    continue        # lives of another selection age are linked through the ultimate column only
                if c == "d" and "l" not in given and (x > lo):
                    continue
                if c == "d" and x == hi and s == n:
                    continue
                ok = life[c].get(x, {}).get(s) is not None
                B.ensure(f"{c} is filled", ok)
                if ok:
                    B.eq(f"value implied for {c}", life[c][x][s], M.value(c)(x, s), tol=None if B.sym else 1e-5)


# ---------------------------------------------------------------------------------------------- loading
def set_select(B, case):
    """one column of one table: cell [x]+s from the row of age x selected, or of attained age x+s"""
    life, M = draw(B, case)
    c = case["col"]
    was = {k: B.rows(k, M.lo, M.hi, M.n, M.value(k), nones=False) for k in "ldqAae"}
    for k in was:
        life._select[k] = was[k]
    s = B.int("s", 0, None if B.sym else 2)
    B.assume(s <= M.n)
    ages = case["ages"]
    vals = {a: B.real(f"v{a}", 0, 1, open_lo=True) for a in ages}
    sel = case["sel"]
    lo0, hi0 = (-1, -1) if case["fresh"] else (M.lo, M.hi)
    life._MINAGE, life._MAXAGE = lo0, hi0
    xs = [a - s * (0 if sel else 1) for a in ages]
    for x in xs:
        B.assume(x >= 0)
    look = case["look"]
    kx, ks = B.int("kx", 0, None if B.sym else 6), B.int("ks", 0, None if B.sym else 2)
    B.assume(ks <= M.n)
    had = True if was[look].has(kx, ks) else False
    old = was[look].val(kx, ks) if had else None
    r = B.call(life, "set_select", s=-1 if case.get("last") and s == M.n else s, age_selected=sel,
               modifies=("self._select", "self._MINAGE", "self._MAXAGE"), **{c: dict(vals)})
    B.ensure("returns the table", r is life)
    hit = [v for x, v in zip(xs, vals.values()) if kx == x and ks == s] if look == c else []
    now = life._select[look][kx].get(ks) if kx in life._select[look] else None
    if hit:
        B.ensure("stored", now is not None)
        if now is not None:
            B.eq("value given for the age and duration", now, hit[0])
    elif had:
        B.ensure("kept", now is not None)
        if now is not None:
            B.eq("other cells keep their value", now, old)
    else:
        B.ensure("no other cell is filled", now is None)
    lo, hi = life._MINAGE, life._MAXAGE
    for x in xs:
        B.ensure("ages cover the rows", (lo <= x) & (x <= hi))
    if not case["fresh"]:
        B.ensure("ages never shrink", (lo <= lo0) & (hi0 <= hi))
    B.ensure("no wider than needed", (True if (lo == lo0 and not case["fresh"]) or any(lo == x for x in xs) else False))
    B.ensure("no older than needed", (True if (hi == hi0 and not case["fresh"]) or any(hi == x for x in xs) else False))


def set_table(B, case):
    life = B.pkg.SelectLife(periods=case["periods"])
    given = {c: {x: [B.real(f"{c}{x}_{s}", 0, 1, open_lo=True) if v else None for s, v in enumerate(row)]
                 for x, row in rows.items()} for c, rows in case["given"].items()}
    r = B.call(life, "set_table", fill=False, modifies=("self._select", "self.periods_", "self._MINAGE", "self._MAXAGE"),
               **{c: {x: list(row) for x, row in t.items()} for c, t in given.items()})
    B.ensure("returns the table", r is life)
    rows = [(x, row) for t in given.values() for x, row in t.items()]
    B.eq("select period covers the longest row", life.periods_, max([case["periods"]] + [len(row) - 1 for x, row in rows]))
    B.eq("first age", life._MINAGE, min(x for x, row in rows))
    B.eq("last age", life._MAXAGE, max(x for x, row in rows))
    for c in "ldqAae":
        t = life[c]
        for x in range(0, 70):
            for s in range(5):
                want = given.get(c, {}).get(x, [None] * 5)
                want = want[s] if s < len(want) else None
                got = t.get(x, {}).get(s)
                if want is None:
                    B.ensure("nothing else is added", got is None)
                else:
                    B.eq("cell as given", got, want)


# ---------------------------------------------------------------------------------------------- queries
def total(B, case, cols="q", partial=""):
    life, M = draw(B, case, 4)
    for c in cols:
        life._select[c] = B.rows(c, M.lo, M.hi, M.n, M.value(c), total=True)
    for c in partial:
        life._select[c] = B.rows(c, M.lo, M.hi, M.n, M.value(c), nones=True)
    return life, M


def lifeof(B, M, extra=0):
    """[x]+s inside the table"""
    x = B.int("x", 0, None if B.sym else M.hi)
    s = B.int("s", 0, None if B.sym else 4)
    B.assume(x >= M.lo)
    B.assume(x <= M.hi)
    B.assume(x + s + extra <= M.hi + M.n)
    return x, s


def lookup(B, case):
    """values of [x]+s are read from cell (x, s) in the select period, then from the ultimate column"""
    c = case["col"]
    life, M = total(B, case, "", c)
    x = B.int("x", 0, None if B.sym else 8)
    s = B.int("s", 0, None if B.sym else 5)
    B.ensure("column", life[c] is life._select[c])
    k = cell(M.n, x, s)
    has = True if life._select[c].has(*k) else False
    if c == "l":
        r = B.call(life, "l_x", x, s=s)
    elif c == "A":
        if not has:
            return
        r = B.call(life, "A_x", x, s=s)
    elif c == "a":
        if not has:
            return
        r = B.call(life, "a_x", x, s=s)
    elif c == "e":
        if not has:
            return
        r = B.call(life, "e_x", x, s=s)
    if has:
        B.eq("tabulated value", r, M.value(c)(*k))
    else:
        B.eq("unknown", r, None)


def whole(B, case):
    """tabulated whole life values answer whole life queries, scaled by the benefit"""
    life, M = total(B, case, "Aa", "")
    x, s = lifeof(B, M)
    k = cell(M.n, x, s)
    b = B.real("b", 0, top=5, open_lo=True, pick=[1.0, 2.0, 1000.0])
    A, a = M.value("A")(*k), M.value("a")(*k)
    B.eq("whole life insurance", B.call(life, "whole_life_insurance", x, s=s, b=b), b * A)
    B.eq("whole life insurance of 1", B.call(life, "whole_life_insurance", x, s=s), A)
    B.eq("insurance", B.call(life, "A_x", x, s=s, t=WHOLE, u=0), A)
    B.eq("annuity", B.call(life, "a_x", x, s=s, t=WHOLE, u=0), a)
    if case["rate"] == "pos":
        B.eq("whole life annuity by its twin", B.call(life, "whole_life_annuity", x, s=s, b=b), b * (1 - A) / M.d())


def survival(B, case):
    life, M = total(B, case)
    t = B.int("t", 0, None if B.sym else 5)
    u = B.int("u", 0, None if B.sym else 4) if case["what"] == "q" else 0
    x, s = lifeof(B, M, t + u - 1)
    p = lambda s, t: prod(1 - M.q(*cell(M.n, x, s + y)) for y in range(t))
    if case["what"] == "p":
        B.eq("product of one-year survival", B.call(life, "p_x", x, s=s, t=t), p(s, t))
        if t == 1:
            B.eq("one year by default", B.call(life, "p_x", x, s=s), 1 - M.q(*cell(M.n, x, s)))
    else:
        B.eq("survives u years, then dies", B.call(life, "q_x", x, s=s, t=t, u=u), p(s, u) * (1 - p(s + u, t)))


def deaths(B, case):
    life, M = total(B, case, "l")
    t = B.int("t", 0, None if B.sym else 4)
    x, s = lifeof(B, M, t)
    l = M.value("l")
    B.eq("difference of lives", B.call(life, "d_x", x, s=s, t=t), l(*cell(M.n, x, s)) - l(*cell(M.n, x, s + t)))


def generic(B, case):
    """a select life in terms of its own p_x"""
    life, T = total(B, case, "q", case.get("tabs", ""))
    if B.sym:
        M = L.Model(B.lives(T.om, extinct=False), T.om, T.delta)
        B.bind(life, M, {n: L.CONTRACTS[n] for n in ("p_x", "q_x", "E_x")} | {
            "max_term": Contract("max_term", lambda M, x, t, u=0: M.cap(x, t, u))})
    else:
        M = L.Model(lambda x, s: prod(1 - T.q(*cell(T.n, x, y)) for y in range(int(s))), T.om, T.delta)
    x, s = lifeof(B, T)
    t = WHOLE if case["t"] == "W" else B.int("t", 0, None if B.sym else 6)
    return life, T, M, x, s, t


def expected(B, case):
    life, T, M, x, s, t = generic(B, dict(case, tabs="e"))
    m = case["moment"]
    kw = {} if m == 1 else dict(moment=m)
    r = B.call(life, "e_x", x, s=s, t=t, **kw)
    k = cell(T.n, x, s)
    if t < 0 and m == 1 and life._select["e"].has(*k):
        B.eq("tabulated value", r, T.value("e")(*k))
    else:
        B.eq("sum of survival", r, L.e_x(M, x, s, t, True, m))


def values(B, case):
    life, T, M, x, s, t = generic(B, dict(case, tabs="Aa"))
    u = B.int("u", 0, None if B.sym else 3)
    B.assume(x + s + u < M.om)
    if t < 0 and not case["benefit"]:
        B.assume(u > 0)
    n = M.cap(x + s + u, t)
    ben = B.fun("benefit", 2) if case["benefit"] else None
    f = ben or (lambda x, t: 1)
    kw = dict(benefit=ben) if ben else {}
    if case["what"] == "A":
        want = sum(f(x + s, k + 1) * M.v(k + 1) * (M.p(x, s, k) - M.p(x, s, k + 1)) for k in range(u, u + n))
        B.eq("insurance", B.call(life, "A_x", x, s=s, t=t, u=u, **kw), want)
    else:
        want = sum(f(x + s, k) * M.v(k) * M.p(x, s, k) for k in range(u, u + n))
        B.eq("annuity", B.call(life, "a_x", x, s=s, t=t, u=u, **kw), want)


def term(B, case):
    """terms are limited by the last age the ultimate column reaches"""
    life = B.pkg.SelectLife(periods=case["n"])
    life._MINAGE, life._MAXAGE = 50, 50 + len(case["rows"]) - 1
    life._select["q"] = {50 + i: {s: .1 if v else None for s, v in enumerate(r)} for i, r in enumerate(case["rows"])}
    ends = [50 + i + case["n"] + 1 for i, r in enumerate(case["rows"]) if len(r) > case["n"] and r[case["n"]]]
    end = max(ends) if ends else life._MAXAGE
    x = B.int("x", 0, None if B.sym else 60)
    u = B.int("u", 0, None if B.sym else 5)
    t = WHOLE if case["t"] == "W" else B.int("t", 0, None if B.sym else 12)
    n = end - (x + u) if t < 0 or x + t + u > end else t
    B.eq("limited term", B.call(life, "max_term", x, t, u), n)


Q2 = {50: [1, 1, 1], 51: [1, 1, 1]}
KNOWN = dict(q=dict(given=dict(q="all"), known="ql"), qA=dict(given=dict(q="all", A=(1, "n")), known="qA"))


def cases():
    out = []
    for n in (0, 1, 2):
        for lo in (0, 50):
            b = dict(n=n, lo=lo, rate="any")
            out.append(dict(b, given=dict(q="all"), known="ql"))
            out.append(dict(b, given=dict(l="all"), known="ld"))
            out.append(dict(b, given=dict(l="all", d="all"), known="lqd"))
            for c in "Aae":
                for at in ((1, n), (0, 0)):
                    out.append(dict(b, given={"q": "all", c: at}, known="q" + c))
            out.append(dict(b, given=dict(q="all", l=(0, n)), known="q"))
    return out


HARNESSES = [
    ("documented defaults", L.signature("SelectLife"), [{}]),
    ("lookup", lookup, L.cross(col=["l", "A", "a", "e"], rate=["any"])),
    ("whole life values", whole, L.cross(rate=["pos", "zero"])),
    ("p_x and q_x", survival, L.cross(what=["p", "q"], rate=["any"])),
    ("d_x", deaths, L.cross(rate=["any"])),
    ("e_x", expected, L.cross(t=["n"], moment=[1, 2, VARIANCE], rate=["any"]) + L.cross(t=["W"], moment=[1, 2, VARIANCE], rate=["any"])),
    ("A_x and a_x", values, L.cross(what=["A", "a"], t=["n", "W"], benefit=TF, rate=["any"])),
    ("max_term", term, [dict(n=n, rows=rows, t=t) for t in ("n", "W") for n, rows in
                        [(0, [[1], [1]]), (1, [[1, 1], [1, 1], [1, 1]]), (2, [[1, 1, 1], [1, 1, 0], [1, 0, 0]]),
                         (2, [[1, 1], [1, 1]]), (1, [])]], dict(bound="tables of up to 3 rows")),
    ("set_select", set_select, [dict(col=c, look=k, sel=sel, fresh=fr, ages=ages, rate="any", last=True)
                                for c in "ldqAae" for k in sorted({c, "d"}) for sel in TF for fr in TF
                                for ages in ([52], [51, 53])[:2 if fr and c == k and c in "qe" else 1]],
     dict(bound="columns of up to 2 ages")),
    ("set_table", set_table, [dict(given=g, periods=p) for p in (0, 2) for g in (
        dict(q=Q2), dict(l={60: [1, 1], 58: [1, 1, 1, 1]}, e={59: [0, 1]}), dict(A=Q2, a={53: [1]}), dict(d={52: [0, 0, 1]}))],
     dict(bound="tables of up to 3 rows")),
    ("fill_table", fill, L.cross(start=["lives", "radix"], rate=["any"]), dict(limit=300)),
    ("complete fill", complete, cases(), dict(bound="tables of 2 ages")),
]
