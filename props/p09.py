# P09 annuity values
L = use("life")
TF = [True, False]
R = ["zero", "pos"]
HARNESSES = [
    ("documented defaults", L.signature("Annuity"), [{}]),
    ("a_x", L.contract("a_x"), L.cross(t=["W", "n"], discrete=TF) + L.cross(t=["W"], discrete=TF, benefit=["default"])),
    ("whole_life_annuity", L.contract("whole_life_annuity"), L.cross(variance=TF, discrete=TF, rate=R)),
    ("temporary_annuity", L.contract("temporary_annuity"),
     L.cross(t=["W", "n"], variance=[False], discrete=TF, rate=R)
     + L.cross(t=["W", "n"], variance=[True], discrete=TF, rate=R, t_min=[1])),
    ("deferred_annuity", L.contract("deferred_annuity"), L.cross(t=["W", "n"], discrete=TF)),
    ("certain_life_annuity", L.contract("certain_life_annuity"), L.cross(t=["W", "n"], discrete=TF, rate=R)),
    ("immediate_annuity", L.contract("immediate_annuity"), L.cross(t=["W", "n"], variance=TF, rate=R)),
    ("annuity_twin", L.contract("annuity_twin"), L.cross(discrete=TF, rate=["pos"])),
    ("insurance_twin", L.contract("insurance_twin"), L.cross(discrete=TF)),
    ("annuity_variance", L.contract("annuity_variance"), L.cross(discrete=TF, rate=["pos"])),
    ("defaults", L.defaults(["a_x", "whole_life_annuity", "temporary_annuity", "deferred_annuity",
                             "certain_life_annuity", "immediate_annuity", "annuity_twin", "insurance_twin",
                             "annuity_variance"], "Annuity"), [{}]),
]
