"""C14: split-Bregman TV denoising and its pieces."""
from common import *
f_breg = sig("breg", i, i, i, vp, vp, d, d, i, i)
b_shrink = sig("b_shrink", None, i, vp, vp, d)
b_mxpy = sig("b_mxpy", None, i, vp, vp, vp)
b_gs = sig("b_gs", None, i, i, vp, vp, d, d)
b_jac = sig("b_jac", None, i, i, vp, vp, vp, vp, d)
b_rhs = sig("b_rhs", None, i, i, vp, vp, vp, vp, vp, vp, d, d, vp, vp)
b_hid = sig("b_hid", None, i, i, d, d, vp)


def D(n, m):
    """dense difference matrices, for the witness only"""
    N = n * m
    X, Y = np.zeros((N, N)), np.zeros((N, N))
    for r in range(n):
        for c in range(m):
            k = r * m + c
            if c < m - 1:
                X[k, k], X[k, k + 1] = -1, 1
            if r < n - 1:
                Y[k, k], Y[k, k + m] = -1, 1
    return X, Y


def witness(n, m, f, mu):
    """dual field by accelerated projected gradient; None if it has not converged"""
    X, Y = D(n, m)
    K = np.vstack([X, Y])
    p = np.zeros(2 * n * m)
    z, t = p.copy(), 1.0
    for it in range(20000):
        g = K @ (f - K.T @ z / mu)
        pn = np.clip(z + mu / 8.0 * g, -1, 1)
        tn = (1 + np.sqrt(1 + 4 * t * t)) / 2
        z = pn + (t - 1) / tn * (pn - p)
        p, t = pn, tn
        if it % 200 == 199:
            u = f - K.T @ p / mu
            pr = np.abs(K @ u).sum() + mu / 2 * ((u - f) ** 2).sum()
            gg = K.T @ p
            du = f @ gg - gg @ gg / (2 * mu)
            if pr - du <= 2e-6 * abs(pr):
                return p[:n * m], p[n * m:]
    return None


def image(n, m, kind=None):
    kind = kind or rnd.choice(["blocks", "noise", "ramp", "int", "spike", "big", "small", "const"])
    if kind == "blocks":
        a = np.kron(rng.integers(0, 4, (2, 2)).astype(float), np.ones(((n + 1) // 2, (m + 1) // 2)))[:n, :m] + 0.2 * rng.normal(size=(n, m))
    elif kind == "ramp":
        a = np.add.outer(np.arange(n) * 0.3, np.arange(m) * -0.7) + 0.1 * rng.normal(size=(n, m))
    elif kind == "int":
        a = rng.integers(-5, 6, (n, m)).astype(float)
    elif kind == "spike":
        a = np.zeros((n, m))
        a[rnd.randrange(n), rnd.randrange(m)] = 5.0
    elif kind == "const":
        a = np.full((n, m), 3.0)
    else:
        a = rng.normal(size=(n, m)) * {"noise": 1, "big": 1e5, "small": 1e-5}[kind]
    if not a.any():
        a[0, 0] = 1.0
    return a.ravel()


def run(n, m, f, mu, tol, maxit, jac, model=1, wit=None):
    gf, gu = G(f), G(n * m)
    note("breg %dx%d mu=%g tol=%g maxit=%d jac=%d" % (n, m, mu, tol, maxit, jac))
    st = f_breg(n, m, gu.p, gf.p, mu, tol, maxit, jac)
    emit(e="Case", n="breg")
    emit(e="Breg", n=n, m=m, f=vec(f), u=vec(gu.np), mu=num(mu), tol=num(tol), maxit=maxit, jac=jac, st=st, same=b01(gf.same()),
         guard=b01(gu.ok() and gf.ok()), model=model, px=vec(wit[0]) if wit else "", py=vec(wit[1]) if wit else "")
    gf.free(), gu.free()


def pieces(n, m, solve=True):
    N = n * m
    mu, la = rnd.choice([0.1, 1.0, 5.0, 30.0]), rnd.choice([0.2, 1.0, 7.0, 60.0])
    emit(e="Case", n="pieces")
    gx, gz = G(rvec(N)), G(N)
    g = rnd.choice([0.0, 0.5, 1.0, 3.0])
    if N > 3:
        gx.np[0], gx.np[1], gx.np[2] = g, -g, 0.0
    gx.snap()
    note("shrink N=%d" % N)
    b_shrink(N, gx.p, gz.p, g)
    emit(e="Shrink", x=vec(gx.np), g=num(g), z=vec(gz.np), same=b01(gx.same()), guard=b01(gz.ok() and gx.ok()))
    gy = G(rvec(N))
    gz.np[:] = 777.25
    b_mxpy(N, gx.p, gy.p, gz.p)
    emit(e="Mxpy", x=vec(gx.np), y=vec(gy.np), z=vec(gz.np), same=b01(gx.same() and gy.same()), guard=b01(gz.ok()))
    v = [G(rvec(N, "normal")) for _ in range(5)]
    w1, w2 = G(N), G(N)
    gz.np[:] = 777.25
    b_rhs(n, m, *[q.p for q in v], gz.p, mu, la, w1.p, w2.p)
    emit(e="Rhs", n=n, m=m, f=vec(v[0].np), dx=vec(v[1].np), bx=vec(v[2].np), dy=vec(v[3].np), by=vec(v[4].np), mu=num(mu), la=num(la), z=vec(gz.np),
         scale=num(max(abs(q.np).max() for q in v) * 4), same=b01(all(q.same() for q in v)), guard=b01(gz.ok() and w1.ok() and w2.ok() and all(q.ok() for q in v)))
    if not solve:
        return
    gu, gr = G(rvec(N, "normal")), G(rvec(N, "normal"))
    u0 = gu.np.copy()
    b_gs(n, m, gu.p, gr.p, mu, la)
    emit(e="Gs", n=n, m=m, u=vec(u0), rhs=vec(gr.np), mu=num(mu), la=num(la), z=vec(gu.np), same=b01(gr.same()), guard=b01(gu.ok() and gr.ok()))
    gd = G(N)
    b_hid(n, m, mu, la, gd.p)
    emit(e="Hid", n=n, m=m, mu=num(mu), la=num(la), z=vec(gd.np), same=1, guard=b01(gd.ok()))
    gd.snap()
    gu.np[:] = u0
    b_jac(n, m, gu.p, w1.p, gr.p, gd.p, la)
    emit(e="Jac", n=n, m=m, u=vec(u0), rhs=vec(gr.np), d=vec(gd.np), mu=num(mu), la=num(la), z=vec(gu.np), same=b01(gr.same() and gd.same()), guard=b01(gu.ok() and w1.ok() and gr.ok()))
    for q in [gx, gy, gz, w1, w2, gu, gr, gd] + v:
        q.free()


def races():
    """large vectors, many repetitions, several threads: a race shows as a different output"""
    for N in [3000, 20000]:
        emit(e="Case", n="races")
        gx, gy, gz = G(rng.normal(size=N)), G(rng.normal(size=N)), G(N)
        seen = set()
        for k in range(120):
            gz.np[:] = 777.25
            b_shrink(N, gx.p, gz.p, 0.5)
            if gz.np.tobytes() not in seen and len(seen) < 6:
                seen.add(gz.np.tobytes())
                emit(e="Shrink", x=vec(gx.np), g="0.5", z=vec(gz.np), same=b01(gx.same()), guard=b01(gz.ok() and gx.ok()))
        seen = set()
        for k in range(60):
            gz.np[:] = 777.25
            b_mxpy(N, gx.p, gy.p, gz.p)
            if gz.np.tobytes() not in seen and len(seen) < 6:
                seen.add(gz.np.tobytes())
                emit(e="Mxpy", x=vec(gx.np), y=vec(gy.np), z=vec(gz.np), same=b01(gx.same() and gy.same()), guard=b01(gz.ok()))
        for g in (gx, gy, gz):
            g.free()


if A.get("what") == "races":
    races()
    sys.exit(0)
MX = 6 if not THOROUGH else 8
shapes = [(a, b) for a in range(3, MX + 1) for b in range(3, MX + 1)]
for s in shapes:
    pieces(*s)
# larger images: every piece once, and a few iterations of the whole
for n, m in [(64, 64), (130, 35), (260, 258)]:
    pieces(n, m, solve=False)
for n, m in [(17, 20), (3, 70), (40, 4)] + ([(30, 21), (100, 7)] if THOROUGH else []):
    pieces(n, m)
    for mi, jac in ((1, 1), (4, rnd.choice([1, 2]))):
        run(n, m, image(n, m), rnd.choice([0.3, 1.0, 4.0]), 1e-9, mi, jac)
rnd.shuffle(shapes)
for k, (n, m) in enumerate(shapes * (3 if THOROUGH else 1) + [(3, 11), (11, 3), (8, 7)]):
    f = image(n, m)
    mu = rnd.choice([0.05, 0.3, 1.0, 4.0, 20.0])
    for mi in rnd.sample([0, 1, 2, 3, 5, 8], 4):
        run(n, m, f, mu, rnd.choice([1e-12, 1e-3, 0.05]), mi, rnd.choice([1, 1, 1, 2, 3, 0] if mi < 4 else [1, 2]))
    run(n, m, f, mu, rnd.choice([0.9, 1.5, 4.0]), rnd.choice([3, 7]), rnd.choice([1, 2]))
    run(n, m, f, mu, rnd.choice([0.3, 0.1, 0.03, 0.01, 1e-3]), 40, rnd.choice([1, 1, 2, 4]))
# many sweeps, many iterations, tolerances that never stop it
for mi, jac in [(2, 12), (1, 25), (2, 70), (0, 40), (150, 1), (60, 5)]:
    n, m = rnd.choice([(3, 3), (4, 3), (3, 5)])
    run(n, m, image(n, m), rnd.choice([0.05, 0.3, 2.0]), rnd.choice([0.0, -1.0, 1e-300]), mi, jac)
for k in range(24 if THOROUGH else 8):
    n, m = rnd.choice([(3, 3), (4, 6), (6, 4), (5, 5), (3, 8), (7, 3), (9, 9)])
    f = image(n, m, rnd.choice(["blocks", "noise", "ramp", "int"]))
    mu = rnd.choice([0.3, 1.0, 4.0])
    w = witness(n, m, f, mu)
    run(n, m, f, mu, 1e-9, 30000, rnd.choice([1, 2]), model=0, wit=w)
