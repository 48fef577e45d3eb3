# P18 filling a life table.  Ghost: lives L(age) consistent with every supplied cell; each imputed cell must be the value
# the ghost implies (l = L(x), d = L(x)-L(x+1), q = d/l, p = 1-q), may only fill an empty cell within the table's ages.
L = use("life")
TF = [True, False]


def implied(Lt):
    l = lambda k: Lt(0, k)
    return dict(l=l, d=lambda k: l(k) - l(k + 1), p=lambda k: l(k + 1) / l(k), q=lambda k: (l(k) - l(k + 1)) / l(k))


def setup(B, case, hook, radix=None):
    lo = B.int("minage", 0, None if B.sym else 2)
    hi = B.int("maxage", 1, None if B.sym else 9)
    B.assume(lo < hi)
    ext = case["extinct"]
    Lt = B.lives(hi, extinct=ext)
    if not B.sym:
        Lt.scale = 1000.0
    if radix is not None and not B.sym:
        k = radix / Lt(0, lo)
        Lt.scale = Lt.scale * k
    val = implied(Lt)
    last = hi - 1 if ext else hi
    tops = dict(l=hi if ext else hi + 1, d=last, q=last, p=last)
    life = B.pkg.LifeTable()
    life._MINAGE, life._MAXAGE = lo, hi
    empty = case["start"] == "radix"
    for c in "ldqp":
        life._table[c] = B.table(c, lo, tops[c], value=val[c], hook=hook(c), empty=empty and c in "ld")
    return life, Lt, val, tops, lo, hi


def fill(B, case):
    z = {}

    def hook(c):
        def store(k, v):
            B.ensure(f"only missing cells of {c} are written", not z["t"][c].has(k))
            B.ensure(f"only ages of the table in {c}", (k >= z["lo"]) & (k <= z["tops"][c]))
            # (the code rounds filled cells to seven places, relative to its radix)
            w = 0 if B.sym else z["Lt"].scale if c in "ld" else 1.0
            B.eq(f"implied value of {c}", v + w, z["val"][c](k) + w, tol=None if B.sym else 1e-5)
        return store
    radix = B.real("radix", 0, top=1000, open_lo=True, pick=[1000.0, 100.0])
    life, Lt, val, tops, lo, hi = setup(B, case, hook, radix if case["start"] == "radix" else None)
    z.update(Lt=Lt, t=life._table, lo=lo, hi=hi, tops=tops, val=val)
    if case["start"] == "radix":
        B.assume(abs(Lt(0, lo) - radix) < 1e-6 if not B.sym else Lt(0, lo) == radix)
    else:
        # some lives are supplied
        g = B.int("g", 0, None if B.sym else 9)
        B.assume(life._table["l"].has(g))
    B.invariant_for(life)
    keep = {}
    k = B.int("k", 0, None if B.sym else 10)
    if not B.sym:           # follows from the obligation that only missing cells are written
        keep = {c: life._table[c].val(k) for c in "ldqp" if life._table[c].has(k)}
    r = B.call(life, "fill_table", radix=radix, modifies=("self._table",))
    B.ensure("returns the table", r is life)
    for c in keep:
        B.ensure(f"supplied cell of {c} stays", life._table[c].has(k))
        B.eq(f"supplied cell of {c} keeps its value", life._table[c].val(k), keep[c])


def complete(B, case):
    """bounded: tables of 3 ages; the supplied cells determine every other cell"""
    n = 3
    lo = case["lo"]
    Lt = B.lives(lo + n, extinct=case["extinct"])
    val = implied(Lt)
    radix = B.real("radix", 0, top=1000, open_lo=True, pick=[1000.0])
    if not B.sym:
        Lt.scale = Lt.scale * radix / Lt(0, lo)
    B.assume(abs(Lt(0, lo) - radix) < 1e-6 if not B.sym else Lt(0, lo) == radix)
    given = {c: {lo + k: val[c](lo + k) for k in ks} for c, ks in case["given"].items()}
    kw = dict(radix=radix) if case.get("radix", True) else {}
    life = B.pkg.LifeTable()
    r = B.call(life, "set_table", modifies=("self._table", "self._MINAGE", "self._MAXAGE"), **given, **kw)
    B.ensure("returns the table", r is life)
    B.eq("first age", life._MINAGE, lo)
    B.eq("last age", life._MAXAGE, lo + 1 + max(j for ks in case["given"].values() for j in ks))
    for c in "ldqp":
        for k in range(n + 1):
            if k < n or c == "l":
                B.ensure(f"{c} is filled at every age", lo + k in life._table[c])
                if lo + k in life._table[c]:
                    B.eq(f"implied value of {c}", life._table[c][lo + k], val[c](lo + k), tol=None if B.sym else 1e-4)
        B.ensure("no other ages", all(lo <= j <= lo + n for j in life._table[c]))


ALL = [0, 1, 2]
GIVEN = [dict(q=ALL), dict(p=ALL), dict(q=[0, 2], p=[1]), dict(l=[0, 1, 2, 3]), dict(l=[1], q=ALL), dict(l=[3], q=ALL),
         dict(d=[1], q=ALL), dict(l=[0, 2, 3], d=[0]), dict(l=[2], p=[0, 2], d=[1], q=[1]), dict(l=[0, 3], q=[0], p=[2])]
XGIVEN = [g for g in GIVEN if g != dict(l=[3], q=ALL) and g != dict(l=[0, 3], q=[0], p=[2])]


def setter(B, case):
    """given cells are stored, other cells kept; ages cover every supplied cell and the year after it"""
    life = B.pkg.LifeTable()
    old = {}
    for c in "ldqp":
        old[c] = life._table[c] = B.table("old_" + c, 0, 12)
    lo0, hi0 = -1, -1
    if case["again"]:
        lo0 = B.int("lo0", 0, None if B.sym else 6)
        hi0 = B.int("hi0", 0, None if B.sym else 12)
        B.assume(lo0 < hi0)
    life._MINAGE, life._MAXAGE = lo0, hi0
    kw = {}
    given = {c: B.table("given_" + c, 0, 10) for c in case["cols"]}
    some = {c: B.int("some_" + c, 0, None if B.sym else 10) for c in case["cols"]}
    for c in given:
        B.assume(given[c].has(some[c]))
    if case["ages"]:
        kw = dict(minage=B.int("minage", 0, None if B.sym else 10), maxage=B.int("maxage", 0, None if B.sym else 12))
    k = B.int("k", 0, None if B.sym else 12)
    old_has, old_val = {}, {}
    c = case["look"]
    was = True if old[c].has(k) else False
    val = old[c].val(k) if was else None
    r = B.call(life, "set_table", fill=False, modifies=("self._table", "self._MINAGE", "self._MAXAGE"), **given, **kw)
    B.ensure("returns the table", r is life)
    lo, hi = life._MINAGE, life._MAXAGE
    if case["ages"]:
        B.eq("first age as given", lo, kw["minage"])
        B.eq("last age as given", hi, kw["maxage"])
    else:
        for c2 in given:
            j = some[c2]
            B.ensure("ages reach every supplied cell and the following age", (lo <= j) & (j + 1 <= hi))
        if case["again"]:
            B.ensure("ages never shrink", (lo <= lo0) & (hi0 <= hi))
        if not (case["again"] and lo == lo0):
            B.ensure("starts at a supplied age", True if any(given[c2].has(lo) for c2 in given) else False)
        if not (case["again"] and hi == hi0):
            B.ensure("ends after a supplied age", True if any(given[c2].has(hi - 1) for c2 in given) else False)
    t = life._table[c]
    if c in given and given[c].has(k):
        B.eq("supplied cell", t[k], given[c].val(k))
    elif was:
        B.eq("earlier cell", t[k], val)
    else:
        B.ensure("nothing else is added", k not in t)


HARNESSES = [
    ("documented defaults", L.signature(("LifeTable", ["__init__", "set_table"])), [{}]),
    ("fill_table", fill, L.cross(start=["lives", "radix"], extinct=TF), dict(limit=300)),
    ("set_table", setter, L.cross(again=TF, ages=TF, cols=["q", "l"], look=["q"])
     + L.cross(again=TF, ages=TF, cols=["ld", "lp"], look=["l", "d"])),
    ("complete fill", complete,
     [dict(given=g, lo=lo, extinct=x) for x in TF for lo in (0, 40) for g in (XGIVEN if x else GIVEN)],
     dict(bound="tables of 3 ages, arbitrary values")),
    ("complete fill", complete, [dict(given=dict(l=[0, 1, 2, 3]), lo=0, extinct=False, radix=False)],
     dict(bound="tables of 3 ages, arbitrary values")),
]
