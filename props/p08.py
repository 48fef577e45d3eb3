# P08 reported variances are Var of the PV
L = use("life")
TF = [True, False]
V = [-2]
HARNESSES = [
    ("documented defaults", L.signature(("Insurance", ["insurance_variance"]), ("Annuity", ["annuity_variance", "insurance_twin", "annuity_twin"])), [{}]),
    ("E_x", L.contract("E_x"), L.cross(t=["W", "n"], moment=V)),
    ("insurance_variance", L.contract("insurance_variance"), [{}]),
    ("whole_life_insurance", L.contract("whole_life_insurance"), L.cross(moment=V, discrete=TF)),
    ("term_insurance", L.contract("term_insurance"), L.cross(t=["W", "n"], moment=V, discrete=TF)),
    ("deferred_insurance", L.contract("deferred_insurance"), L.cross(t=["W", "n"], moment=V, discrete=TF)),
    ("endowment_insurance", L.contract("endowment_insurance"),
     L.cross(t=["W", "n"], moment=V, discrete=TF, endowment=["neg", "any"])),
]
