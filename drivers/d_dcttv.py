"""C02: every operator of the DCT+TV dictionaries."""
from xf import *
part, parts = A["part"], A["parts"]
shapes = [(r, c) for r in range(3, 8) for c in range(3, 8)] + [(3, 16), (17, 3), (12, 10), (9, 15)]
flat = [(1, 1), (1, 6), (5, 1), (2, 2), (2, 7), (6, 2), (1, 2)]
if THOROUGH:
    shapes += [(r, c) for r in range(3, 11) for c in range(8, 12)] + [(20, 24), (31, 16)]
W = [(0.0, 0.0), (1.0, 0.0), (0.0, 1.0), (1.0, 1.0), (0.3, 2.5), (5.0, 0.01), (1e-3, 0.0), (0.0, 4.0)]
cases = [(r, c, w, bp) for (r, c) in shapes for w in rnd.sample(W, 8 if THOROUGH else 4) for bp in (1, 2)]
cases += [(r, c, (0.0, 0.0), bp) for (r, c) in flat for bp in (1, 2)]
cases += [(4, 5, w, bp) for w in W for bp in (1, 2)]
BIG = [(33, 70, (0.3, 2.5), 1), (64, 40, (1.0, 1.0), 2), (130, 9, (0.0, 1.0), 1), (8, 150, (2.0, 0.0), 2), (260, 290, (0.7, 1.3), 1), (270, 255, (1.0, 0.5), 2)]   # larger images
if THOROUGH:
    BIG += [(120, 90, (1.5, 0.5), 1), (90, 120, (0.5, 1.5), 2)]
cases = BIG + cases
for k, (r, c, (av, ah), bp) in enumerate(cases):
    if k % parts != part:
        continue
    tot = r * c
    n = rnd.choice([1, tot, rnd.randint(1, tot)])
    mode = rnd.choice([1, 2]) if tot <= 600 else 2
    s = Set("dcttv", n, r, c, subset(tot, n), mode=mode, bp=bp, av=av, ah=ah)
    emit(e="Case", n=n, r=r, c=c, av=num(av), ah=num(ah), mode=mode, bp=bp)
    if s.setup() == 0:
        for op in rnd.sample(OPS, 9):
            s.op(op)
        s.adj("Ax", "Aty"), s.adj("Mx", "Mty")
        if bp == 1:
            s.adj("Wz", "Wtx")
        if k % 7 == 0:
            for op in ("Mx", "Wz", "Ax"):
                L = s.lens(op)[0]
                for j in rnd.sample(range(L), min(L, 12)):
                    s.op(op, basis(L, j))
        s.destroy()
    s.free()
