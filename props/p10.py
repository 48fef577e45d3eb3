# P10 increasing / decreasing
L = use("life")
TF = [True, False]


def identity(kind):
    def run(B, case):
        obj, M = L.generic_life(B, "Reserves", case)
        x, s = L.age(B, M)
        t = B.int("t", 1, None if B.sym else M.om - x - s)
        B.assume(x + s + t <= M.om)
        b = B.real("b", 0, top=5, open_lo=True, pick=[1.0, 2.5])
        disc = case["discrete"]
        up = B.call(obj, "increasing_" + kind, x=x, s=s, t=t, b=b, discrete=disc)
        dn = B.call(obj, "decreasing_" + kind, x=x, s=s, t=t, b=b, discrete=disc)
        lv = B.call(obj, "term_insurance" if kind == "insurance" else "temporary_annuity",
                    x=x, s=s, t=t, b=b, discrete=disc)
        B.eq("increasing + decreasing", up + dn, (t + (1 if disc else 0)) * lv)
    return run


HARNESSES = [
    ("increasing_insurance", L.contract("increasing_insurance"), L.cross(t=["W", "n"], discrete=TF)),
    ("decreasing_insurance", L.contract("decreasing_insurance"), L.cross(t=["n"], discrete=TF, t_min=[1], t_in=[1])),
    ("increasing_annuity", L.contract("increasing_annuity"), L.cross(t=["W", "n"], discrete=TF)),
    ("decreasing_annuity", L.contract("decreasing_annuity"), L.cross(t=["n"], discrete=TF)),
    ("identity_insurance", identity("insurance"), L.cross(discrete=TF)),
    ("identity_annuity", identity("annuity"), L.cross(discrete=TF)),
    ("defaults", L.defaults(["increasing_insurance", "decreasing_insurance"], "Insurance"), [{}]),
    ("defaults2", L.defaults(["increasing_annuity", "decreasing_annuity"], "Annuity"), [{}]),
]
