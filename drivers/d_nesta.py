"""C12 / C13: NESTA and its pieces."""
from xf import *
from d_lbref import reference
ax_dense = sig("ax_dense", None, vp, i, i, i, vp, vp, d)
ax_setop = sig("ax_setop", None, vp, C.c_char_p, vp)
f_nesta = sig("nesta", i, i, vp, i, vp, vp, d, d, d, i, i)
np_new = sig("np_new", vp, vp)
np_del = sig("np_del", None, vp)
np_setup = sig("np_setup", i, vp, vp, vp, d, d, d, i, vp)
np_setmu = sig("np_setmu", None, vp, d)
np_vec = sig("np_vec", dp, vp, C.c_char_p)
np_feval = sig("np_feval", d, vp)
np_project = sig("np_project", None, vp, vp, vp, vp)
fifo_new, fifo_del = sig("fifo_new", i), sig("fifo_del", None)
fifo_push, fifo_mean = sig("fifo_push", None, d), sig("fifo_mean", d)


def copyvec(p, n):
    return np.ctypeslib.as_array(p, (n,)).copy()


class Prob:
    """a problem with row-orthonormal A: dense or a transform set"""
    def __init__(self, kind, small=False, large=False):
        self.kind = kind
        self.ax = None
        if kind == "dense":
            m = rnd.choice([4, 5, 6] if small else [40, 67] if large else [2, 3, 4, 5, 6, 7, 8, 9, 11])
            n = rnd.randint(1, m - 1 if small else m)
            q, _ = np.linalg.qr(rng.normal(size=(m, m)))
            Am = q[:n].copy()
            wk = rnd.choice(["eye", "wide", "wide", "orth", "tall"])
            if wk == "eye":
                W, p, norm = None, m, 1.0
            else:
                p = {"wide": m + rnd.randint(1, m + 2), "orth": m, "tall": max(1, m - 1)}[wk]
                W = np.linalg.qr(rng.normal(size=(m, m)))[0] if wk == "orth" else rng.normal(size=(m, p))
                norm = float(np.linalg.norm(W, 2)) * rnd.choice([1.0, 1.0, 1.3])
            self.Am, self.W, self.n, self.m, self.p, self.norm = Am, W, n, m, p, norm
            self.gA, self.gW = G(Am), (G(W) if W is not None else None)
            self.ax = ax_new()
            self.fields = dict(k="dense", A=vec(Am), W=vec(W) if W is not None else "", norm=num(norm), n=n, m=m, p=p)
        else:
            if kind == "dct":
                r, c = rnd.choice([(1, 70), (9, 12), (130, 1), (33, 40)] if large else [(1, 7), (4, 4), (3, 5), (9, 1), (5, 3)])
                t = Set("dct", 0, r, c, [0], mode=rnd.choice([1, 2]))
            elif kind == "tva":
                r, c = rnd.choice([(10, 11), (3, 33), (20, 6), (31, 36)] if large else [(3, 3), (4, 3), (3, 5), (4, 4)])
                t = Set("dcttv", 0, r, c, [0], mode=rnd.choice([1, 2]), bp=1, av=rnd.choice([0.0, 1.0, 0.7]), ah=rnd.choice([0.0, 0.5, 1.5]))
            elif kind == "mat":
                m = rnd.choice([33, 65, 260] if large else [3, 5, 8])
                n = rnd.randint(1, m)
                q, _ = np.linalg.qr(rng.normal(size=(m, m)))
                t = Set("mat", n, n, m, None, mat=q[:n].copy())
            if kind != "mat":
                tot = t.r * t.c
                t.n = rnd.randint(1, tot)
                t.idxl = rnd.sample(range(tot), t.n)
                t.idx.free()
                t.idx = G(np.array(t.idxl, dtype=np.int32), dtype=np.int32)
            self.set = t

    def open(self):
        if self.kind == "dense":
            ax_dense(self.ax, self.n, self.m, self.p, self.gA.p, self.gW.p if self.gW else None, self.norm)
            return
        t = self.set
        t.quiet = True
        st = {"dct": lambda: s_dct(t.n, t.r, t.c, t.mode, t.idx.p, t.ax), "tva": lambda: s_dcttv(t.n, t.r, t.c, t.av, t.ah, t.mode, t.bp, t.idx.p, t.ax),
              "mat": lambda: s_mat(t.n, t.c, t.mat.p, t.ax)}[self.kind]()
        if st:
            raise SystemExit("set-up failed")
        self.ax = t.ax
        self.n, self.m, self.p, self.norm = [ax_int(t.ax, k) for k in (b"n", b"m", b"p")] + [ax_norm(t.ax)]
        if self.kind == "mat":
            self.norm = 1.0
            sig("ax_setdims", None, vp, i, i, i, i, d)(t.ax, self.n, self.m, self.m, self.p, 1.0)
        self.fields = dict(k="set", api={"dct": "dct", "tva": "dcttv", "mat": "mat"}[self.kind], n=self.n, r=t.r, c=t.c, idx=vec(t.idxl), av=num(t.av), ah=num(t.ah),
                           mode=t.mode, bp=t.bp, A=vec(t.mat.np) if t.mat else "", norm=num(self.norm), m=self.m, p=self.p)

    def close(self):
        if self.kind != "dense":
            ax_destroy(self.ax)

    def meas(self):
        gx, gy = G(rvec(self.m, rnd.choice(["sparse", "normal"]))), G(self.n)
        if not np.any(gx.np):
            gx.np[0] = 1.0
        ax_call(self.ax, b"Ax", gx.p, gy.p)
        b = gy.np.copy() * rnd.choice([1.0, 10.0, 0.01, 1e5, 1e-6])
        gx.free(), gy.free()
        s = np.linalg.norm(b) or 1e-3
        b = b + 0.02 * s * rng.normal(size=self.n)
        return b, rnd.choice([0.05, 0.2, 0.5, 0.05, 0.2, 0.5, 1e-4, 1.3]) * s

    def Amat(self):
        cols = []
        gy = G(self.n)
        for k in range(self.m):
            gx = G(basis(self.m, k))
            ax_call(self.ax, b"Ax", gx.p, gy.p)
            cols.append(gy.np.copy())
            gx.free()
        gy.free()
        return np.array(cols).T

    def free(self):
        if self.kind == "dense":
            self.gA.free()
            if self.gW:
                self.gW.free()
        else:
            self.set.free()


def run(P, mu, tol, ncont, b, sigma, y="", m=None, n=None, drop=None, cap=500 if THOROUGH else 250, verbose=0):
    gb, gx = G(b), G(max(P.m, m or 0), fill=-4.5)
    if drop:
        ax_setop(P.ax, drop.encode(), None)
    note("nesta m=%d n=%d ncont=%d" % (P.m, P.n, ncont))
    st = f_nesta(P.m if m is None else m, gx.p, P.n if n is None else n, gb.p, P.ax, mu, tol, sigma, ncont, verbose)
    valid = m is None and n is None and drop is None
    emit(e="Nesta", b=vec(b), sigma=num(sigma), mu=num(mu), tol=num(tol), ncont=ncont, st=st, bsame=b01(gb.same()), guard=b01(gb.ok() and gx.ok()), xsame=b01(gx.same()),
         x=vec(gx.np[: P.m]), valid=b01(valid), cap=cap, y=y, **P.fields)
    gb.free(), gx.free()


def main_run():
    for rep in range(14 if THOROUGH else 3):
        for kind in ["dense", "dense", "dense", "dct", "tva", "tva", "mat"]:
            P = Prob(kind)
            P.open()
            emit(e="Case", kind=kind)
            b, sigma = P.meas()
            gW = np.abs(b).max()
            for k in range(3):
                mu = gW * 10 ** rng.uniform(-2.5, -0.3)
                tol = 10 ** rng.uniform(-3.5, -0.3)
                run(P, mu, tol, rnd.choice([1, 2, 3, 4, 5]), b, sigma, verbose=rnd.choice([0, 0, 3]))
            run(P, gW * 0.1, 1e-2, 0, b, sigma)
            # bad arguments
            k = rnd.randrange(4)
            if k == 0:
                run(P, 0.1, 1e-2, 2, b, sigma, m=P.m + rnd.choice([-1, 1]))
            elif k == 1:
                run(P, 0.1, 1e-2, 2, b, sigma, n=P.n + rnd.choice([-1, 1]))
            elif k == 2:
                run(P, 0.1, 1e-2, 2, b, sigma, drop=rnd.choice(["Wz", "Wtx", "Rx", "Rty", "Ax", "Aty"]))
            P.close()
            P.free()
        # larger problems, a few loose stages
        for kind in ["dense", "dct", "tva", "mat"]:
            P = Prob(kind, large=True)
            P.open()
            emit(e="Case", kind=kind + "-large")
            b, sigma = P.meas()
            run(P, np.abs(b).max() * 10 ** rng.uniform(-1.5, -0.3), 10 ** rng.uniform(-2, -0.3), rnd.choice([1, 3]), b, sigma)
            P.close()
            P.free()
        # stages of several hundred to the limit of inner iterations
        for k in range(3):
            P = Prob("dense", small=True)
            P.open()
            emit(e="Case", kind="long")
            b, sigma = P.meas()
            s = np.abs(P.Am.T @ b).max()
            mu, tol, nc = [(1e-3, 1e-8, 1), (1e-4, 1e-8, 2), (1e-5, 1e-9, 1)][k]
            run(P, mu * s, tol, nc, b, sigma, cap=10000)
            P.close()
            P.free()
        # near-optimality against a dual witness (W = I)
        P = Prob(rnd.choice(["dct", "mat"]))
        P.open()
        emit(e="Case", kind="opt")
        b, sigma = P.meas()
        Am = P.Amat()
        y = reference(Am, b, sigma, Am.T @ b)
        if y:
            run(P, 1e-3 * np.abs(Am.T @ b).max(), 1e-7, 6, b, sigma, y=y, cap=1)
        P.close()
        P.free()


def main_pieces():
    for rep in range(60 if THOROUGH else 12):
        for kind in ["dense", "dense", "dct", "tva", "mat"]:
            P = Prob(kind, large=rep == 1)
            P.open()
            emit(e="Case", kind=kind)
            b, sigma = P.meas()
            gb = G(b)
            NP = np_new(P.ax)
            out = (d * 9)()
            mu, tol, nc = 10 ** rng.uniform(-5, 0), 10 ** rng.uniform(-6, -0.1), rnd.randint(1, 12)
            st = np_setup(NP, gb.p, P.ax, mu, tol, sigma, nc, out)
            emit(e="NSetup", b=vec(b), sigma=num(sigma), mu=num(mu), tol=num(tol), ncont=nc, st=st, bm=num(out[0]), bt=num(out[1]), muj=num(out[2]), tolj=num(out[3]),
                 L=num(out[4]), gsigma=num(out[5]), xo=vec(copyvec(np_vec(NP, b"xo"), P.m)), Atb=vec(copyvec(np_vec(NP, b"Atb"), P.m)), bsame=b01(gb.same()), missing=0, **P.fields)
            for k in range(3):
                mu = 10 ** rng.uniform(-3, 1)
                np_setmu(NP, mu)
                gxx, gg, gv = G(rvec(P.m) if k else copyvec(np_vec(NP, b"Atb"), P.m)), G(rvec(P.m)), G(P.m)
                note("project m=%d n=%d" % (P.m, P.n))
                np_project(NP, gxx.p, gg.p, gv.p)
                emit(e="Project", b=vec(b), sigma=num(sigma), mu=num(mu), xx=vec(gxx.np), g=vec(gg.np), v=vec(gv.np), same=b01(gxx.same() and gg.same()),
                     guard=b01(gxx.ok() and gg.ok() and gv.ok()), **P.fields)
                x = rvec(P.m)
                xk = np_vec(NP, b"xk")
                for j in range(P.m):
                    xk[j] = x[j]
                if rnd.random() < 0.3:      # exactly on the kink
                    gz, gx = G(P.p), G(x)
                    ax_call(P.ax, b"Wtx", gx.p, gz.p)
                    v = abs(gz.np).max()
                    if v > 0:
                        mu = float(v)
                        np_setmu(NP, mu)
                    gz.free(), gx.free()
                f = np_feval(NP)
                emit(e="Feval", b=vec(b), sigma=num(sigma), mu=num(mu), x=vec(x), f=num(f), g=vec(copyvec(np_vec(NP, b"gradf"), P.m)),
                     same=b01(np.array_equal(copyvec(xk, P.m), x)), **P.fields)
                for g in (gxx, gg, gv):
                    g.free()
            np_del(NP)
            if rnd.random() < 0.5:
                NP = np_new(P.ax)
                ax_setop(P.ax, rnd.choice([b"Wz", b"Wtx", b"Rx", b"Rty", b"Ax", b"Aty"]), None)
                st = np_setup(NP, gb.p, P.ax, 0.1, 0.01, sigma, 3, out)
                emit(e="NSetup", b=vec(b), sigma=num(sigma), st=st, bsame=b01(gb.same()), missing=1, **P.fields)
                np_del(NP)
            P.close()
            gb.free()
            P.free()
    for rep in range(30 if THOROUGH else 8):
        emit(e="Case", kind="window")
        emit(e="Window")
        fifo_new()
        mx = 0.0
        big = rnd.random() < 0.3
        for k in range(rnd.choice([1, 3, 9, 10, 11, 12, 19, 20, 21, 22, 35])):
            v = float(rnd.choice([rng.normal() * 10.0 ** rnd.randint(-3, 3), 0.0, -2.0, 1.0]) if big else rng.uniform(-5, 5))
            mx = max(mx, abs(v))
            fifo_push(v)
            emit(e="Push", v=num(v), mean=num(fifo_mean()), scale=num(mx))
        fifo_del()


main_run() if A["what"] == "run" else main_pieces()
