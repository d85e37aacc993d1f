"""TV operators: every shape in a range, all six operators, several weights."""
from common import *
tv = sig("tv", None, C.c_char_p, i, i, d, vp, vp)
OPS = ["Dx", "DxT", "DxTDx", "Dy", "DyT", "DyTDy"]


def call(op, n, m, al, x, rep=1):
    seen = set()
    first = None
    for _ in range(rep):
        gx, gy = G(x), G(n * m)
        note("tv %s n=%d m=%d" % (op, n, m))
        tv(op.encode(), n, m, al, gx.p, gy.p)
        key = gy.np.tobytes()
        bad = not (gx.same() and gx.ok() and gy.ok())
        if key not in seen or bad:
            seen.add(key)
            emit(e="Tv", op=op, n=n, m=m, al=num(al), x=vec(x), y=vec(gy.np), xsame=b01(gx.same() and gx.ok()), guard=b01(gy.ok()))
        if first is None:
            first = gy.np.copy()
        gx.free(), gy.free()
    return first


if A["mode"] == "small":
    hi = 13 if THOROUGH else 9
    for n in range(2, hi + 1):
        for m in range(2, hi + 1):
            emit(e="Case", n=n, m=m)
            for op in OPS:
                al = rnd.choice([1.0, 2.5, -0.75, 0.0, float(rng.normal()), 1e-3])
                call(op, n, m, al, rvec(n * m))
                if op in ("Dx", "Dy"):
                    x, y = rvec(n * m, "normal"), rvec(n * m, "normal")
                    dx, dty = call(op, n, m, al, x), call(op + "T", n, m, al, y)
                    emit(e="Adj", op=op, n=n, m=m, al=num(al), x=vec(x), y=vec(y), dx=vec(dx), dty=vec(dty))
    # every column of the matrices, for a few shapes
    for n, m in [(2, 2), (2, 3), (3, 2), (4, 5), (5, 3)] + ([(7, 6), (8, 8)] if THOROUGH else []):
        emit(e="Case", n=n, m=m, basis=1)
        for op in OPS:
            for k in range(n * m):
                call(op, n, m, 1.5, basis(n * m, k))
else:
    shapes = [(2, 64), (64, 2), (17, 33), (31, 16), (40, 41), (3, 128), (129, 3)]
    if THOROUGH:
        shapes += [(100, 101), (65, 64), (2, 1000), (1000, 2), (97, 32)]
    for n, m in shapes:
        emit(e="Case", n=n, m=m, threads=A["threads"])
        for op in OPS:
            call(op, n, m, float(rng.normal()), rvec(n * m), rep=20)
    # large images, many repetitions: races show as differing outputs
    for n, m in [(220, 90), (3000, 3), (258, 260)] + ([(500, 300)] if THOROUGH else []):
        emit(e="Case", n=n, m=m, threads=A["threads"])
        for op in OPS:
            call(op, n, m, 1.25, rvec(n * m, "int"), rep=60)
