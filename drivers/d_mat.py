"""C03: matrix transforms."""
from xf import *
dims = [1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 33]
pairs = [(a, b) for a in dims for b in dims]
pairs += [(1, 300), (300, 1), (130, 70), (65, 129), (200, 128), (515, 520), (1100, 40)]
if THOROUGH:
    pairs += [(500, 300), (1000, 3), (3, 1000)]
    pairs += [(rnd.randint(1, 90), rnd.randint(1, 90)) for _ in range(150)]
for n, m in pairs:
    kind = rnd.choice(["int", "normal", "sparse", "big"])
    s = Set("mat", n, 1, m, mat=rvec(n * m, kind))
    emit(e="Case", n=n, m=m)
    if s.setup() == 0:
        for op in rnd.sample(OPS, 9):
            s.op(op)
        s.adj("Ax", "Aty")
        if n * m <= 20:
            for j in range(m):
                s.op("Ax", basis(m, j)), s.op("AtAx", basis(m, j))
            for j in range(n):
                s.op("Aty", basis(n, j))
        s.destroy()
    s.free()
for n, m in [(0, 3), (3, 0), (0, 0), (-1, 4), (4, -1), (-2, -2), (-2147483648, 5), (5, -2147483648)]:
    emit(e="Case", n=n, m=m)
    s = Set("mat", n, 1, m, mat=rvec(25))
    s.setup()
    s.free()
    # a refused set-up does not spoil a later one
    s = Set("mat", 4, 1, 6, mat=rvec(24))
    s.setup()
    s.op("Ax"), s.op("Aty")
    s.destroy(), s.free()
