# P05 expected future lifetimes
L = use("life")
TF = [True, False]
MOM = [1, 2, VARIANCE]
HARNESSES = [
    ("documented defaults", L.signature("Lifetime"), [{}]),
    ("e_x", L.contract("e_x"), L.cross(t=["W", "n"], curtate=TF, moment=MOM)),
    ("e_x with a one-year term", L.contract("e_x", fix=dict(t=1)), L.cross(t=["n"], curtate=TF, moment=MOM)),
    ("e_x of a Lifetime", L.contract("e_x", cls="Lifetime"), L.cross(t=["W", "n"], curtate=TF, moment=[1, 2])),
    ("defaults", L.defaults(["e_x"], "Lifetime") , [{}]),
    ("defaults of a life table", L.defaults(["e_x"], "LifeTable") , [{}]),
]
