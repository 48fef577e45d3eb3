# P07 insurance values equal the first-principles EPV
L = use("life")
TF = [True, False]
HARNESSES = [
    ("documented defaults", L.signature("Insurance"), [{}]),
    ("E_x", L.contract("E_x"), L.cross(t=["W", "n"], moment=[1, 2, 3])),
    ("A_x", L.contract("A_x"), L.cross(t=["W", "n"], moment=[1, 2, 3], discrete=TF, endowment=["zero"])
     + L.cross(t=["n"], moment=[1, 2], discrete=TF, endowment=["any"])
     + L.cross(t=["W"], moment=[1], discrete=TF, endowment=["any"], benefit=["default"])),
    ("whole_life_insurance", L.contract("whole_life_insurance"), L.cross(moment=[1, 2], discrete=TF)),
    ("term_insurance", L.contract("term_insurance"), L.cross(t=["W", "n"], moment=[1, 2], discrete=TF)),
    ("deferred_insurance", L.contract("deferred_insurance"),
     L.cross(t=["W", "n"], moment=[1, 2], discrete=TF) + L.cross(t=["W", "n"], moment=[1], discrete=TF, u_any=[1])),
    ("endowment_insurance", L.contract("endowment_insurance"),
     L.cross(t=["W", "n"], moment=[1, 2], discrete=TF, endowment=["neg", "any"])),
    ("defaults", L.defaults(["E_x", "A_x", "whole_life_insurance", "term_insurance", "deferred_insurance",
                             "endowment_insurance"], "Insurance"), [{}]),
]
