"""C07 / C08: calls of the two CG solvers."""
from common import *
cg = sig("cg", i, i, vp, vp, vp, vp, vp, d, i, i, dp)
PREC = A["prec"]


def orth(n):
    q, r = np.linalg.qr(rng.normal(size=(n, n)))
    return q * np.sign(np.diag(r))


def system(n):
    kind = rnd.choice(["mild", "mild", "wide", "two", "lap", "diag", "eye", "clustered"])
    if kind == "mild":
        ev = rng.uniform(0.5, 20, n)
    elif kind == "wide":
        ev = 10 ** rng.uniform(-1.3, 1.3, n)
    elif kind == "two":
        ev = np.where(np.arange(n) % 2 == 0, 1.0, 60.0)
    elif kind == "clustered":
        ev = 1 + 0.01 * rng.normal(size=n) ** 2
    if kind == "lap":
        return 2.2 * np.eye(n) - np.eye(n, k=1) - np.eye(n, k=-1)
    if kind == "diag":
        return np.diag(rng.uniform(0.1, 10, n))
    if kind == "eye":
        return np.eye(n) * rnd.choice([1.0, 3.0, 1e-4, 1e4])
    q = orth(n)
    a = q @ np.diag(ev) @ q.T
    return (a + a.T) / 2 * rnd.choice([1.0, 1.0, 1e-3, 1e3])


def call(n, M, b, x0, minv, tol, maxit, verbose=0):
    gA, gb, gx = G(M), G(b), G(x0)
    gm = G(minv) if minv is not None else None
    D = [G(n) for _ in range(5 if minv is not None else 4)]
    res = (d * 3)()
    note("cg n=%d maxit=%d prec=%d" % (n, maxit, minv is not None))
    st = cg(n, gx.p, gb.p, gm.p if gm else None, parr(D), gA.p, tol, maxit, verbose, res)
    ok = all(g.ok() for g in D + [gA, gb, gx] + ([gm] if gm else []))
    same = gA.same() and gb.same() and (gm is None or gm.same())
    Mp = M if minv is None else np.sqrt(np.diag(minv)) @ M @ np.sqrt(np.diag(minv))
    emit(e="Cg", N=n, A=vec(M), b=vec(b), x0=vec(x0), minv=vec(minv) if minv is not None else "", tol=num(tol), maxit=maxit,
         x=vec(gx.np), res=num(res[0]), iter=int(res[1]), st=st, bsame=b01(same), guard=b01(ok),
         wellcond=b01(np.linalg.cond(Mp) < 500 and np.linalg.cond(M) < 500))
    for g in D + [gA, gb, gx] + ([gm] if gm else []):
        g.free()


def precs(n, M):
    if not PREC:
        return [None]
    k = rnd.choice(["ones", "jacobi", "rand", "scaled", "tiny", "huge"])
    if k == "ones":
        return [np.ones(n)]
    if k == "jacobi":
        return [1 / np.diag(M)]
    if k == "rand":
        return [rng.uniform(0.2, 5, n)]
    v = rng.uniform(0.5, 2, n)
    return [v * {"scaled": 1.0, "tiny": 1e-6, "huge": 1e6}[k]]


REPS = 40 if THOROUGH else 9
for n in [1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13]:
    for rep in range(REPS):
        M = system(n)
        xs = rng.normal(size=n)
        b = M @ xs if rnd.random() < 0.8 else basis(n, rnd.randrange(n))
        xs = np.linalg.solve(M, b)
        # starts: zero, random, exact, and residual concentrated on a soft direction
        w, V = np.linalg.eigh(M)
        soft = V @ (np.r_[1.0, np.zeros(n - 1)] + 0.03 * np.r_[np.zeros(n - 1), 1.0]) if n > 1 else np.ones(1)
        starts = {"zero": np.zeros(n), "rand": rng.normal(size=n) * 3, "soft": xs + np.linalg.solve(M, soft) * np.linalg.norm(b) * rnd.choice([0.01, 1.0]),
                  "neg": -xs}
        sk = rnd.choice(list(starts))
        x0 = starts[sk]
        minv = precs(n, M)[0]
        emit(e="Case", n=n, start=sk)
        tol = rnd.choice([1e-1, 1e-2, 1e-4, 1e-7, 0.5, 2.0])
        for maxit in sorted({0, 1, 2, 3, rnd.randint(1, n + 1), n + 1, 4 * n + 8}):
            call(n, M, b, x0, minv, tol, maxit, rnd.choice([0, 0, 0, 1, 3]))
        call(n, M, b, x0, minv, 0.0, rnd.randint(1, max(1, n - 1)))
        call(n, M, b, x0, minv, 1e-8, 4 * n + 8)
    # a start that already solves the system exactly
    M = np.eye(n) * 2.0
    b = np.arange(1, n + 1) * 1.0
    emit(e="Case", n=n, start="exact")
    for maxit in (0, 1, 5):
        call(n, M, b, b / 2, precs(n, M)[0], 1e-6, maxit)

# long runs: slow spectra, so that the iterates stay determined for many steps
for n, cond in ([(24, 300.0), (40, 1e3), (64, 2e3), (96, 1e4)] + ([(128, 1e4), (160, 1e5)] if THOROUGH else [])):
    q = orth(n)
    M = q @ np.diag(np.linspace(1, cond, n)) @ q.T
    M = (M + M.T) / 2
    b = rng.normal(size=n)
    minv = precs(n, M)[0]
    emit(e="Case", n=n, start="long")
    for x0 in (np.zeros(n), rng.normal(size=n)):
        for maxit, tol in ((n // 2, 1e-6), (n - 3, 0.0), (n + 20, 0.3), (n + 20, 1e-3)):
            call(n, M, b, x0, minv, tol, maxit)

# large systems, few iterations
for n in [150, 301, 1030] + ([2050] if THOROUGH else []):
    q = np.diag(rng.uniform(1, 9, n)) + np.diag(rng.uniform(-0.4, 0.4, n - 1), 1)
    M = (q + q.T) / 2
    b = rng.normal(size=n)
    emit(e="Case", n=n, start="large")
    for maxit, tol in ((3, 1e-9), (60, 1e-6), (200, 1e-2)):
        call(n, M, b, rng.normal(size=n), precs(n, M)[0], tol, maxit)
