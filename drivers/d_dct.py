"""C01: every operator of the DCT sets over many shapes and sample sets."""
from xf import *
part, parts = A["part"], A["parts"]
one = list(range(1, 25 if not THOROUGH else 49)) + ([31, 48, 64, 97, 100] if not THOROUGH else [61, 64, 96, 97, 100, 127, 128, 150, 200, 255])
two = [(r, c) for r in range(2, 8) for c in range(2, 8)] + [(9, 4), (4, 9), (11, 2), (2, 13), (16, 16), (17, 12), (12, 31), (1, 7), (9, 1)]
if THOROUGH:
    two += [(r, c) for r in range(2, 13) for c in range(8, 13)] + [(33, 20), (25, 40), (64, 3), (3, 64), (47, 47)]
cases = []
for N in one:
    cases.append(("dct1", N, 1))
    cases.append(("dct", N, 1) if N % 2 else ("dct", 1, N))
for r, c in two:
    if r > 1 and c > 1:
        cases.append(("dct2", r, c))
    cases.append(("dct", r, c))
# large signals: one random sample set each
BIG = [("dct1", 1025, 1), ("dct", 1, 600), ("dct2", 70, 131), ("dct", 128, 64), ("dct2", 5, 512), ("dct", 300, 7), ("dct1", 2300, 1), ("dct2", 260, 300)]
if THOROUGH:
    BIG += [("dct1", 2048, 1), ("dct2", 256, 256), ("dct", 301, 99), ("dct", 1, 1500)]
cases = BIG + cases
for k, (api, r, c) in enumerate(cases):
    if k % parts != part:
        continue
    tot = r * c
    for n in sorted({rnd.randint(1, tot)} if k < len(BIG) else {1, tot, rnd.randint(1, tot)} if tot > 1 else {1}):
        mode = rnd.choice([1, 2, 2]) if api == "dct" else 2
        if mode == 1 and tot > (1500 if THOROUGH else 600):
            mode = 2
        s = Set(api, n, r, c, subset(tot, n), mode=mode)
        emit(e="Case", api=api, n=n, r=r, c=c, mode=mode)
        if s.setup() == 0:
            for op in rnd.sample(OPS, 9):
                s.op(op)
            s.adj("Ax", "Aty")
            s.adj("Mx", "Mty")
            if tot <= 12 and n == tot:
                for j in range(tot):
                    for op in ("Mx", "Mty", "Ax", "Aty", "AtAx"):
                        s.op(op, basis(tot, j))
            elif n == tot:
                s.op("Mx", basis(tot, 0)), s.op("Mty", basis(tot, tot - 1)), s.op("AtAx", np.ones(tot))
            s.destroy()
        s.free()
# every ordered sample set of small signals (enumerated by the model)
for k, q in enumerate(A["idx"]):
    tot, idx = q["tot"], q["idx"]
    shapes = [("dct1", tot, 1)] + ([("dct2", 2, tot // 2)] if tot in (4, 6) else [])
    for api, r, c in shapes:
        s = Set(api, len(idx), r, c, idx, mode=2)
        emit(e="Case", api=api, n=len(idx), r=r, c=c, mode=2, idx=" ".join(map(str, idx)))
        if s.setup() == 0:
            for op in ("Ax", "Aty", rnd.choice(["AtAx", "Rx", "Rty"])):
                s.op(op)
            s.destroy()
        s.free()
