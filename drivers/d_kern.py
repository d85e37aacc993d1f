"""C15: vector kernels."""
from common import *
k_call = sig("k_call", d, C.c_char_p, i, d, d, vp, vp, vp)
MAPS = ["daxpby", "daxpby0", "init", "dxmuly", "daxpbyz", "daxpyz", "abs", "vmulpz"]
REDS = ["norm1", "sum", "logsum", "relerr", "err", "max", "vlogsum", "vsum"]
OUT = {"daxpby": 1, "daxpby0": 1, "init": 1, "abs": 1}
INF, NAN = float("inf"), float("nan")


def call(op, N, a, b, x, y, z, rep=1):
    seen = set()
    for _ in range(rep):
        g = [G(x), G(y), G(z)]
        note("kernel %s N=%d" % (op, N))
        r = k_call(op.encode(), N, a, b, *[q.p for q in g])
        if op in MAPS:
            o = OUT.get(op, 2)
            same = all(q.same() for k, q in enumerate(g) if k != o)
            key = (g[o].np.tobytes(), same)
            if key not in seen:
                seen.add(key)
                emit(e="Map", op=op, len=N, a=num(a), b=num(b), x=vec(x), y=vec(y), z=vec(z), out=vec(g[o].np), same=b01(same), guard=b01(all(q.ok() for q in g)))
        else:
            same = all(q.same() for q in g)
            key = (np.float64(r).tobytes(), same)
            if key not in seen:
                seen.add(key)
                emit(e="Red", op=op, len=N, a=num(a), x=vec(x), y=vec(y), out=num(r), same=b01(same), guard=b01(all(q.ok() for q in g)))
        for q in g:
            q.free()


def data(op, N):
    x, y, z = rvec(N), rvec(N), rvec(N)
    a, b = rnd.choice([1.0, -1.0, 2.5, float(rng.normal()), 1e-7, 3e5]), rnd.choice([1.0, -2.0, float(rng.normal()), 1e6])
    if op in ("logsum", "vlogsum"):
        x = np.exp(rng.normal(size=N) * rnd.choice([1, 1, 20])) * (1 if a > 0 else -1)
    if op == "relerr" and N and not y.any():
        y[0] = 1.0
    if op in ("sum", "vsum", "norm1") and N and rnd.random() < 0.3:
        x = x * 1e150
    return a, b, x, y, z


if A["mode"] == "small":
    for N in list(range(0, 34)) + [63, 64, 65, 127, 128, 129, 255, 257] + ([500, 777, 1023, 1025] if THOROUGH else []):
        emit(e="Case", n=N)
        for op in MAPS + REDS:
            if op == "relerr" and N == 0:
                continue
            for _ in range(3 if THOROUGH else 1):
                call(op, N, *data(op, N))
    # special values at every position of every remainder class
    for N in range(1, 14 if THOROUGH else 10):
        emit(e="Case", n=N, special=1)
        for k in range(N):
            for s in (NAN, 0.0, -0.0, -1.0, INF, -INF, 1e308, 2.3e-308):
                for op in ("logsum", "vlogsum"):
                    a, b, x, y, z = data(op, N)
                    a, x = abs(a), abs(x)
                    if s in (1e308, 2.3e-308):
                        a = 1.0 if rnd.random() < 0.5 else 0.5 if s > 1 else 2.0
                    x[k] = s
                    call(op, N, a, b, x, y, z)
                    if s == -1.0:
                        call(op, N, -a, b, -x, y, z)
                if s not in (1e308, 2.3e-308):
                    for op in ("sum", "vsum", "norm1", "abs", "vmulpz", "dxmuly", "daxpyz", "daxpbyz", "daxpby0"):
                        a, b, x, y, z = data(op, N)
                        x[k] = s
                        call(op, N, a, b, x, y, z)
                if s == s and abs(s) < 1e300:
                    a, b, x, y, z = data("max", N)
                    x[k] = s
                    call("max", N, a, b, -abs(x) - 1 if rnd.random() < 0.5 else x, y, z)
        for (p, q) in [(0, N - 1), (N - 1, 0), (N // 2, N - 1)]:
            for op in ("logsum", "vlogsum"):
                a, b, x, y, z = data(op, N)
                a, x = abs(a), abs(x)
                x[p] = 0.0
                x[q] = rnd.choice([-2.0, INF, NAN, 0.0])
                call(op, N, a, b, x, y, z)
    for k in range(40):
        N = rnd.randint(1, 20)
        emit(e="Case", n=N, mx=1)
        x = rng.normal(size=N) - rnd.choice([0, 5])
        x[rnd.randrange(N)] = rnd.choice([9.0, INF, -INF, -0.5])
        call("max", N, 0, 0, x, x, x)
        call("max", N, 0, 0, -abs(x) - 1.5e308, x, x)
else:
    for N in [1000, 4097, 10007, 65539] + ([40000, 300001] if THOROUGH else []):
        for op in MAPS + REDS:
            emit(e="Case", n=N, op=op)
            call(op, N, *data(op, N), rep=40 if N < 50000 else 6)
