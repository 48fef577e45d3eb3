N = 27
PROPERTIES = {p: ([p.lower()], {}) for p in (f"P{i:02d}" for i in range(1, N + 1))}
# P26: the frame obligations of every query under contract (the other properties report none of them)
PROPERTIES["P26"] = ([f"p{i:02d}" for i in range(1, 26)] + ["p26"], {"frames_only": True})
