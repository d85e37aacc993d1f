"""C10 / C11: the l1qc solver, its pieces and its DCT front end."""
from xf import *
from d_lbref import reference
ax_dense = sig("ax_dense", None, vp, i, i, i, vp, vp, d)
ax_fail = sig("ax_fail", None, i, vp, d)
f_l1qc = sig("l1qc", None, i, vp, i, vp, vp, vp, vp, vp)
f_l1qcd = sig("l1qc_d", i, i, i, vp, i, vp, vp, vp, vp, vp)
qp_new = sig("qp_new", vp, i, i, vp, vp, vp, vp)
qp_del = sig("qp_del", None, vp)
qp_tau = sig("qp_tau", None, vp, d)
qp_vec = sig("qp_vec", dp, vp, C.c_char_p)
qp_fval = sig("qp_fval", d, vp)
qp_feval = sig("qp_feval", d, vp, vp, vp)
qp_descent = sig("qp_descent", i, vp, d, i, vp)
qp_h11 = sig("qp_h11", None, i, vp, vp, d, vp, vp, vp, vp)
qp_maxstep = sig("qp_maxstep", d, vp)
qp_feas = sig("qp_feas", i, vp, vp)
qp_init = sig("qp_init", i, i, vp, vp, vp, vp, vp)
INFEAS = sig("errcode", i, C.c_char_p)(b"INFEAS")


def opts(eps, mu=10.0, lbtol=1e-3, ntol=1e-3, l1tol=0.0, cgtol=1e-12, tau=1.0, lbiter=0, nmax=50, verbose=0, cgmax=2000, warm=0, mode=1):
    return (d * 7)(eps, mu, lbtol, ntol, l1tol, cgtol, tau), (i * 7)(lbiter, nmax, verbose, cgmax, 0, warm, mode)


def copyvec(p, n):
    return np.ctypeslib.as_array(p, (n,)).copy()


def problem(m, n, scale=None):
    k = rnd.choice(["gauss", "orth", "orth", "sub"]) if n <= m else "gauss"
    if k == "gauss":
        Am = rng.normal(size=(n, m))
    elif k == "orth":
        q, _ = np.linalg.qr(rng.normal(size=(m, m)))
        Am = q[:n]
    else:
        Am = np.eye(m)[sorted(rnd.sample(range(m), n))]
    xt = np.zeros(m)
    for j in rnd.sample(range(m), max(1, min(n, m) // 3)):
        xt[j] = rng.normal() * rnd.choice([1, 5, 20])
    if k == "sub" and not np.any(Am @ xt):
        xt[int(np.argmax(Am[0]))] = 2.0
    b = Am @ xt
    eps = rnd.choice([0.05, 0.3, 0.1, 0.01]) * max(1e-3, np.linalg.norm(b))
    nb = rng.normal(size=n)
    b = b + nb / np.linalg.norm(nb) * eps * 0.3
    x0 = np.linalg.lstsq(Am, b, rcond=None)[0]
    if rnd.random() < 0.5:       # a strictly feasible start that does not fit exactly
        dv = rng.normal(size=m)
        x0 = x0 + dv / np.linalg.norm(Am @ dv) * eps * rng.uniform(0, 0.9)
    sc = scale or rnd.choice([1.0, 1.0, 1.0, 1e-3, 1e3])      # the scale of the data
    return Am, b * sc, eps * sc, x0 * sc


def pieces(m, n):
    Am, b, eps, x0 = problem(m, n)
    emit(e="Case", m=m, n=n)
    gA, gb = G(Am), G(b)
    ax = ax_new()
    ax_dense(ax, n, m, m, gA.p, None, 1.0)
    o, oi = opts(eps)
    pr = qp_new(m, n, gb.p, o, oi, ax)
    base = dict(A=vec(Am), b=vec(b), eps=num(eps), m=m, n=n)
    # start values
    for lb0 in (0, rnd.randint(1, 6)):
        x = x0 * rnd.choice([1.0, 1e-3, 100.0]) if rnd.random() < 0.5 else rvec(m, "normal")
        gx, gu = G(x), G(m)
        mu, lbtol = rnd.choice([2.0, 10.0, 5.5]), 10 ** rng.uniform(-5, -0.5)
        o2, oi2 = opts(eps, mu=mu, lbtol=lbtol, lbiter=lb0)
        out = (d * 2)()
        qp_init(m, gx.p, gu.p, o2, oi2, out)
        emit(e="Init", x=vec(x), u=vec(gu.np), tau=num(out[0]), lbiter=int(out[1]), lb0=lb0, mu=num(mu), lbtol=num(lbtol), same=b01(gx.same()), m=m)
        gx.free(), gu.free()
    # feasibility test
    for sc in (0.0, 0.5, 0.999, 1.001, 3.0):
        dv = rng.normal(size=m)
        xs = np.linalg.lstsq(Am, b, rcond=None)[0]
        rr = Am @ dv
        x = xs + dv / (np.linalg.norm(rr) + 1e-300) * eps * sc
        gx = G(x)
        emit(e="Feas", x=vec(x), st=qp_feas(pr, gx.p), infeas=INFEAS, same=b01(gx.same()), **base)
        gx.free()
    for rep in range(3):
        tau = rnd.choice([1.0, 3.7, 50.0, 1e4])
        qp_tau(pr, tau)
        sl = rnd.choice([0.5, 0.05, 1.0])
        x = x0 if rep == 0 else x0 + 0
        u = abs(x) + sl * rng.uniform(0.2, 1.0, m) * max(0.1, abs(x).max())
        gx, gu = G(x), G(u)
        note("f_eval m=%d n=%d" % (m, n))
        f = qp_feval(pr, gx.p, gu.p)

        def ev(x, u, f, gx, gu):
            emit(e="Feval", x=vec(x), u=vec(u), tau=num(tau), f=num(f), fstored=num(qp_fval(pr)), r=vec(copyvec(qp_vec(pr, b"r"), n)),
                 fu1=vec(copyvec(qp_vec(pr, b"fu1"), m)), fu2=vec(copyvec(qp_vec(pr, b"fu2"), m)), same=b01(gx.same() and gu.same()), **base)
        ev(x, u, f, gx, gu)
        # direction
        out = (d * 2)()
        exact = rep < 2
        dxp = qp_vec(pr, b"dx")
        st0 = rng.normal(size=m) if rnd.random() < 0.5 else np.zeros(m)
        for k in range(m):
            dxp[k] = st0[k]
        note("descent m=%d n=%d" % (m, n))
        st = qp_descent(pr, 1e-13 if exact else 1e-2, 4000 if exact else rnd.choice([0, 1, 2]), out)
        dx, du = copyvec(dxp, m), copyvec(qp_vec(pr, b"du"), m)
        g = copyvec(qp_vec(pr, b"gradf"), 2 * m)
        r = Am @ x - b
        h = (eps * eps - r @ r) / 2
        # reduced Hessian product
        z = rvec(m, "normal")
        s11 = 1 / (u - x) ** 2 + 1 / (u + x) ** 2
        s12 = 1 / (u + x) ** 2 - 1 / (u - x) ** 2
        gz, gy, gat, gs, gw = G(z), G(m), G(Am.T @ r), G(s11 - s12 ** 2 / s11), G(m)
        qp_h11(m, gz.p, gy.p, -h, gat.p, gs.p, gw.p, ax)
        emit(e="Grad", x=vec(x), u=vec(u), tau=num(tau), g=vec(g), z=vec(z), hz=vec(gy.np), **base)
        emit(e="Dir", x=vec(x), u=vec(u), tau=num(tau), d=vec(np.r_[dx, du]), st=st, cgres=num(out[0]), exact=b01(exact and out[0] < 1e-9), **base)
        for q in (gz, gy, gat, gs, gw):
            q.free()
        # largest step, along the Newton direction and along arbitrary ones
        for k in range(3):
            if k:
                dx, du = rng.normal(size=m) * 10 ** rng.uniform(-2, 1.5), rng.normal(size=m) * 10 ** rng.uniform(-2, 1.5)
                if rnd.random() < 0.3:
                    dx[:] = 0
                dup = qp_vec(pr, b"du")
                for j in range(m):
                    dxp[j], dup[j] = dx[j], du[j]
            s = qp_maxstep(pr)
            emit(e="MaxStep", x=vec(x), u=vec(u), dx=vec(dx), du=vec(du), s=num(s), **base)
        gx.free(), gu.free()
        # outside the domain: one slack negative, or the cone constraint violated
        for which in range(3):
            x2, u2 = x.copy(), u.copy()
            j = rnd.randrange(m)
            if which == 0:
                x2[j] = u2[j] * 1.5
            elif which == 1:
                x2[j] = -u2[j] * 1.5
            else:
                dv = rng.normal(size=m)
                x2 = x + dv / np.linalg.norm(Am @ dv) * eps * 2.5
                u2 = abs(x2) + 1.0
            gx, gu = G(x2), G(u2)
            f = qp_feval(pr, gx.p, gu.p)
            ev(x2, u2, f, gx, gu)
            gx.free(), gu.free()
    qp_del(pr)
    gA.free(), gb.free()


def races():
    """many elements, many repetitions, several threads: a race shows as a different result"""
    for m in (1500, 6000):
        Am = rng.normal(size=(1, m))
        b = Am @ rng.normal(size=m)
        eps = 300.0 * np.linalg.norm(Am)      # the diagonal part of the Hessian dominates: two CG iterations do
        x = 0.1 * rng.normal(size=m)
        u = abs(x) + rng.uniform(0.6, 1.0, m)
        emit(e="Case", m=m, n=1)
        gA, gb, gx, gu = G(Am), G(b), G(x), G(u)
        ax = ax_new()
        ax_dense(ax, 1, m, m, gA.p, None, 1.0)
        o, oi = opts(eps)
        pr = qp_new(m, 1, gb.p, o, oi, ax)
        qp_tau(pr, 3.7)
        seen, out = set(), (d * 2)()
        for rep in range(60):
            qp_feval(pr, gx.p, gu.p)
            dxp = qp_vec(pr, b"dx")
            np.ctypeslib.as_array(dxp, (m,))[:] = 0
            if qp_descent(pr, 1e-13, 2, out):
                continue
            dx, du, g = copyvec(dxp, m), copyvec(qp_vec(pr, b"du"), m), copyvec(qp_vec(pr, b"gradf"), 2 * m)
            key = np.r_[du, g].tobytes()
            if key in seen or len(seen) >= 5:
                continue
            seen.add(key)
            emit(e="Elim", x=vec(x), u=vec(u), tau="3.7", g=vec(g), dx=vec(dx), du=vec(du), A=vec(Am), b=vec(b), eps=num(eps), m=m, n=1)
        qp_del(pr)
        for q in (gA, gb, gx, gu):
            q.free()


def path(m, n):
    Am, b, eps, x0 = problem(m, n)
    emit(e="Case", m=m, n=n)
    gA, gb = G(Am), G(b)
    ax = ax_new()
    ax_dense(ax, n, m, m, gA.p, None, 1.0)
    mu = rnd.choice([10.0, 4.0, 2.5])
    for lbiter, nmax, ntol, l1tol, bad in [(*t, 0) for t in [(1, 2, 1e-7, 0.0), (1, 3, 1e-7, 0.0), (1, rnd.randint(4, 7), 1e-7, 0.0), (2, 3, 1e-7, 0.0),
                                      (rnd.randint(2, 4), rnd.randint(2, 6), 10 ** rng.uniform(-4, -0.5), 0.0),
                                      (rnd.randint(2, 3), rnd.randint(3, 8), 1e-7, 10 ** rng.uniform(-3, -0.7))]] + [(3, 4, 1e-7, 0.0, b) for b in (1, 3, 5)] + [(2, 6, 1e-3, 0.0, rnd.randint(2, 6))]:
        o, oi = opts(eps, mu=mu, ntol=ntol, l1tol=l1tol, lbiter=lbiter, nmax=nmax, warm=rnd.randrange(3), cgtol=1e-13, cgmax=3000)
        gx = G(x0)
        out = (d * 4)()
        note("l1qc path m=%d n=%d" % (m, n))
        ax_fail(bad, gb.p, eps)
        f_l1qc(m, gx.p, n, gb.p, o, oi, ax, out)
        ax_fail(0, None, 0.0)
        emit(e="Path", A=vec(Am), b=vec(b), eps=num(eps), m=m, n=n, x0=vec(x0), lbiter=lbiter, nmax=nmax, ntol=num(ntol), l1tol=num(l1tol), mu=num(mu),
             x=vec(gx.np), st=int(out[3]), nit=int(out[1]), bad=bad)
        gx.free()
    # stages run until nothing changes any more
    for lbiter in (2, 3):
        o, oi = opts(eps, mu=mu, ntol=0.0, l1tol=0.0, lbiter=lbiter, nmax=90, warm=rnd.randrange(3), cgtol=1e-14, cgmax=3000)
        gx = G(x0)
        out = (d * 4)()
        note("l1qc central m=%d n=%d" % (m, n))
        f_l1qc(m, gx.p, n, gb.p, o, oi, ax, out)
        emit(e="Central", A=vec(Am), b=vec(b), eps=num(eps), m=m, n=n, x0=vec(x0), lbiter=lbiter, mu=num(mu), x=vec(gx.np), st=int(out[3]), nit=int(out[1]))
        gx.free()
    # truncated inner solves: the start of CG shows in the result
    for warm in (0, 1, 2):
        for lbiter, nmax, cmax, ctol in [(1, 3, rnd.randint(1, 3), 1e-9), (2, rnd.randint(3, 4), rnd.randint(2, 4), 1e-9), (1, 5, 50, rnd.choice([0.3, 0.05])),
                                         (rnd.randint(2, 4), rnd.randint(3, 6), rnd.choice([0, 1, 1, 1, 2]), 1e-9)]:
            l1tol = rnd.choice([0.0, 0.0, 0.01])
            o, oi = opts(eps, mu=mu, ntol=1e-7, l1tol=l1tol, lbiter=lbiter, nmax=nmax, warm=warm, cgtol=ctol, cgmax=cmax)
            gx = G(x0)
            out = (d * 4)()
            note("l1qc truncated m=%d n=%d" % (m, n))
            f_l1qc(m, gx.p, n, gb.p, o, oi, ax, out)
            emit(e="Trunc", A=vec(Am), b=vec(b), eps=num(eps), m=m, n=n, x0=vec(x0), lbiter=lbiter, nmax=nmax, ntol="1e-7", l1tol=num(l1tol), mu=num(mu), warm=warm, ctol=num(ctol), cmax=cmax,
                 x=vec(gx.np), st=int(out[3]), nit=int(out[1]), cgit=int(out[2]))
            gx.free()
    gA.free(), gb.free()


def nstages(m, x0, mu, lbtol, lbiter):
    if lbiter:
        return lbiter, True
    t = (np.log(2 * m + 1) - np.log(lbtol) - np.log(max((2 * m + 1) / abs(x0).sum(), 1.0))) / np.log(mu)
    return int(np.ceil(t)), abs(t - round(t)) > 1e-6


def solve(m, n):
    scale = rnd.choice([1.0, 1.0, 1.0, 1e-3, 1e3])
    Am, b, eps, x0 = problem(m, n, scale)
    emit(e="Case", m=m, n=n)
    gA, gb = G(Am), G(b)
    ax = ax_new()
    ax_dense(ax, n, m, m, gA.p, None, 1.0)
    y = reference(Am, b, eps, x0) if m < 200 and scale == 1.0 else ""      # large or scaled (the tolerances are absolute): feasibility, norm and counts
    for k in range(3):
        mu, lbtol, warm = rnd.choice([10.0, 3.0, 25.0]), rnd.choice([1e-3, 1e-2, 0.1]), rnd.randrange(3)
        lbiter = 0 if k < 2 else rnd.randint(1, 5)
        st_, clear = nstages(m, x0, mu, lbtol, lbiter)
        if not clear or st_ < 1:
            continue
        sloppy = k == 2
        ntol = 1e-4
        o, oi = opts(eps, mu=mu, lbtol=lbtol, ntol=ntol, l1tol=1e-3 if sloppy else 0.0, lbiter=lbiter, nmax=rnd.choice([3, 10]) if sloppy else 60, warm=warm,
                     cgtol=1e-2 if sloppy else 1e-8, cgmax=20 if sloppy else 500)
        gx = G(x0)
        out = (d * 4)()
        note("l1qc m=%d n=%d" % (m, n))
        f_l1qc(m, gx.p, n, gb.p, o, oi, ax, out)
        emit(e="Solve", A=vec(Am), b=vec(b), eps=num(eps), m=m, n=n, x0=vec(x0), x=vec(gx.np), l1=num(out[0]), nit=int(out[1]), st=int(out[3]), mu=num(mu),
             stages=st_, nmax=int(oi[1]), ntol=num(ntol), y="" if sloppy else y, feasible=1, infeas=INFEAS, bsame=b01(gb.same()),
             guard=b01(gx.ok() and gb.ok() and gA.ok()))
        gx.free()
    # infeasible starts
    for sc in (1.0001, 2.0, 100.0):
        dv = rng.normal(size=m)
        xs = np.linalg.lstsq(Am, b, rcond=None)[0]
        x = xs + dv / np.linalg.norm(Am @ dv) * eps * sc
        o, oi = opts(eps, warm=rnd.randrange(3))
        gx = G(x)
        out = (d * 4)()
        f_l1qc(m, gx.p, n, gb.p, o, oi, ax, out)
        emit(e="Solve", x0=vec(x), x=vec(gx.np), st=int(out[3]), feasible=0, infeas=INFEAS, bsame=b01(gb.same()), m=m, n=n)
        gx.free()
    gA.free(), gb.free()


def idct(N):
    M = np.cos(np.pi * np.outer(2 * np.arange(N) + 1, np.arange(N)) / (2 * N)) * np.sqrt(2.0 / N)
    M[:, 0] /= np.sqrt(2)
    return M


def dctsolve(r, c, mode):
    tot = r * c
    n = rnd.randint(max(1, tot // 3), tot)
    idx = rnd.sample(range(tot), n)
    if rnd.random() < 0.5:
        idx.sort()
    one = r == 1 or c == 1 or mode == 1
    Mf = idct(tot) if one else np.kron(idct(r), idct(c))
    Am = Mf[idx]
    eta = np.zeros(tot)
    for j in rnd.sample(range(tot), max(1, tot // 5)):
        eta[j] = rng.normal() * 3
    b = Am @ eta + 0.01 * rng.normal(size=n)
    eps = rnd.choice([0.05, 0.2]) * np.linalg.norm(b)
    emit(e="Case", r=r, c=c, mode=mode)

    def call(idx, b, valid, eps=eps, r=r, c=c, n=n, tight=True):
        gb, gi = G(b), G(np.array(idx, dtype=np.int32), dtype=np.int32)
        gx = G(max(1, tot), fill=-3.5)
        mu, lbtol, ntol = 10.0, 1e-3, 1e-4
        x0 = Am.T @ b if valid else None
        st_, clear = nstages(tot, x0, mu, lbtol, 0) if valid else (0, True)
        if not clear or (valid and st_ < 1):
            return
        o, oi = opts(eps, mu=mu, lbtol=lbtol, ntol=ntol, l1tol=0.0 if tight else 1e-3, nmax=60 if tight else 12, warm=rnd.randrange(3), cgtol=1e-8 if tight else 1e-3, cgmax=500, mode=mode)
        out = (d * 4)()
        note("l1qc_dct r=%d c=%d n=%d" % (r, c, n))
        st = f_l1qcd(r, c, gx.p, n, gb.p, gi.p, o, oi, out)
        e = dict(e="DctSolve", r=r, c=c, n=n, idx=vec(idx), dim=1 if one else 2, valid=b01(valid), b=vec(b), eps=num(eps), st=st, bsame=b01(gb.same()),
                 isame=b01(gi.same()), xsame=b01(gx.same()), guard=b01(gx.ok() and gb.ok() and gi.ok()), x=vec(gx.np))
        if valid:
            e.update(A=vec(Am), m=tot, x0=vec(x0), l1=num(out[0]), nit=int(out[1]), lbst=int(out[3]), mu=num(mu), stages=st_, nmax=int(oi[1]), ntol=num(ntol),
                     y=reference(Am, b, eps, x0) if tight and tot < 200 else "")
        emit(**e)
        for g in (gb, gi, gx):
            g.free()
    call(idx, b, True)
    call(idx, b, True, tight=False)
    # failures: a contradictory duplicate sample (infeasible start), bad indices, bad sizes
    k = rnd.randrange(4)
    if k == 0 and n >= 2:
        j = list(idx)
        j[0] = j[1]
        b2 = b.copy()
        b2[0] = b2[1] + 10 * eps
        call(j, b2, False)
    elif k == 1:
        j = list(idx)
        j[rnd.randrange(n)] = rnd.choice([-1, tot, 10 * tot])
        call(j, b, False)
    elif k == 2:
        call(idx, b, False, r=rnd.choice([0, -2]))
    else:
        call(idx, b, False, n=0)


if A["what"] == "pieces":
    for m in [1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12] * (6 if THOROUGH else 1):
        for n in sorted({1, max(1, m // 2), m, m + 1 + m % 5}):
            pieces(m, n)
    for m, n in [(40, 25), (130, 60), (33, 70), (520, 260)]:
        pieces(m, n)
elif A["what"] == "races":
    races()
elif A["what"] == "path":
    for m in [1, 2, 3, 4, 5, 6, 7, 8, 10] * (8 if THOROUGH else 2):
        path(m, rnd.randint(1, max(1, m - 1)) if rnd.random() < 0.7 else m + rnd.randint(0, 3))
    path(24, 13), path(40, 17)
elif A["what"] == "solve":
    for m in [1, 2, 3, 4, 5, 6, 8, 9, 12, 16] * (8 if THOROUGH else 2):
        solve(m, rnd.randint(1, m) if rnd.random() < 0.8 else m + rnd.randint(1, 5))
    solve(30, 18), solve(64, 40), solve(280, 120)
else:
    for r, c in [(1, 1), (1, 5), (6, 1), (2, 2), (3, 4), (4, 3), (5, 5), (2, 7), (1, 16), (6, 5), (7, 4), (13, 1), (8, 11), (70, 1), (20, 21), (1, 300)] * (5 if THOROUGH else 1):
        dctsolve(r, c, rnd.choice([1, 2]))
