"""C17 / C18: resource accounting of every public call, with injected faults
(what = fault) or over call histories (what = hist)."""
from xf import *
ax_dense = sig("ax_dense", None, vp, i, i, i, vp, vp, d)
ax_setop = sig("ax_setop", None, vp, C.c_char_p, vp)
f_l1qc = sig("l1qc", None, i, vp, i, vp, vp, vp, vp, vp)
f_l1qcd = sig("l1qc_d", i, i, i, vp, i, vp, vp, vp, vp, vp)
f_nesta = sig("nesta", i, i, vp, i, vp, vp, d, d, d, i, i)
f_breg = sig("breg", i, i, i, vp, vp, d, d, i, i)
PRE.pre_fail.argtypes = [C.c_long, i]
errcode = sig("errcode", i, C.c_char_p)
CODES = {errcode(k) for k in (b"INFEAS", b"OOM", b"DCT", b"FILE", b"CG", b"INVAL", b"INCONS")}
BAD = (4, 8, 9, 12)
bits = 0
for c in CODES:
    bits |= c


def coded(st):
    return st > 0 and (st & ~bits) == 0


def state():
    return [PRE.pre_live(k) for k in (0, 1, 2)]


def call(ep, kind, fn, ins=(), outs=(), out=None, slot="", valid=1, k=-1, mode=0, rtol="1e-6"):
    """one call under the monitor; returns (status, number of requests made)"""
    note("%s fail=%d mode=%d" % (ep, k, mode))
    for g in ins:
        g.snap()
    PRE.pre_start()
    a, n0 = state(), PRE.pre_nev()
    PRE.pre_fail(k, mode)
    st = fn()
    nreq = PRE.pre_nreq()
    PRE.pre_fail(-1, 0)
    b = state()
    evs = [PRE.pre_ev(q, 0) for q in range(n0, PRE.pre_nev())]
    dmg = PRE.pre_damaged()
    PRE.pre_stop()
    nf = sum(1 for q in evs if q in (3, 7))
    emit(e="Call", ep=ep, kind=kind, slot=slot, st=st, coded=b01(coded(st)), k=k, mode=mode, nreq=nreq, nfail=nf, valid=valid, h0=a[0], p0=a[1], f0=a[2], h1=b[0], p1=b[1], f1=b[2],
         dbl=sum(1 for q in evs if q in BAD), dmg=dmg, same=b01(all(g.same() for g in ins)), guard=b01(all(g.ok() for g in list(ins) + list(outs))),
         out=vec(out()) if (out and st == 0) else "", rtol=rtol)
    return st, nreq


class Prob:
    """a sensing problem with orthonormal rows"""

    def __init__(s, n, m):
        s.n, s.m = n, m
        q, _ = np.linalg.qr(np.random.default_rng(SEED).normal(size=(m, m)))
        s.A = q[:n].copy()
        x = np.zeros(m)
        x[[1, m - 2]] = 3.0, -2.0
        s.b = s.A @ x + 0.01
        s.g = G(s.A)
        s._ax = ax_new()

    @property
    def ax(s):    # the harness has one caller-made dense set; install this problem's
        ax_dense(s._ax, s.n, s.m, s.m, s.g.p, None, 1.0)
        return s._ax


PROBS = {"": Prob(6, 12), "b": Prob(5, 9), "c": Prob(7, 8)}
gA = PROBS[""].g
MX, NX = 12, 6
SIZES = ["", "b", "c"]


def opts(eps, mode=1):
    return (d * 7)(eps, 10.0, 1e-2, 1e-3, 1e-3, 1e-10, 1.0), (i * 7)(3, 12, 0, 60, 0, 0, mode)


def newton(ok=1, ax=None, sz="", **f):
    P = PROBS[sz]
    gb, gx = G(P.b), G(P.A.T @ P.b if ok else np.full(P.m, 9.0))
    o, oi = opts(0.1)
    out = (d * 4)()
    a = ax or P.ax

    def go():
        f_l1qc(P.m, gx.p, P.n, gb.p, o, oi, a, out)
        return int(out[3])
    r = call("newton" + sz + ("" if ok else "-inf"), "solve", go, ins=[gb, P.g], outs=[gx], out=lambda: gx.np, valid=ok, **f)
    gb.free(), gx.free()
    return r


SHAPE = {"": (4, 5), "b": (5, 3), "c": (3, 3)}


def image(r, c):
    return np.add.outer(np.arange(float(r)), np.cos(np.arange(float(c)))).ravel()


def l1qc(kind="ok", dm=1, sz="", **f):
    r, c = SHAPE[sz]
    t = sorted(random_idx(r * c, sz))
    if kind == "badidx":
        t[-1] = rnd.choice([r * c, -1, r * c + 7])
    idx = G(np.array(t, dtype=np.int32), dtype=np.int32)
    n = idx.n if kind != "n0" else 0
    b = image(r, c)[np.clip(idx.np, 0, r * c - 1)]
    gb, gx = G(b), G(r * c)
    o, oi = opts(0.2 if kind != "infeasible" else -1.0, dm)
    out = (d * 4)()
    s = call("l1qc%d%s-%s" % (dm, sz, kind), "solve", lambda: f_l1qcd(r, c, gx.p, n, gb.p, idx.p, o, oi, out), ins=[gb, idx], outs=[gx], out=lambda: gx.np, valid=b01(kind == "ok"), **f)
    gb.free(), gx.free()
    return s


def random_idx(mt, sz):
    return np.random.default_rng(SEED + len(sz)).choice(mt, size=mt // 2, replace=False).tolist()


def nesta(kind="ok", sz="", **f):
    P = PROBS[sz]
    gb, gx = G(P.b), G(P.m + 1)
    ax = P.ax
    if kind == "missing":
        ax = ax_new()
        ax_dense(ax, P.n, P.m, P.m, P.g.p, None, 1.0)
        ax_setop(ax, rnd.choice([b"Wz", b"Wtx", b"Ax", b"Aty", b"Rx", b"Rty"]), None)
    m, n = P.m, P.n
    if kind == "dims":
        m, n = rnd.choice([(m + 1, n), (m, n - 1), (m - 1, n)])
    s = call("nesta%s-%s" % (sz, kind), "solve", lambda: f_nesta(m, gx.p, n, gb.p, ax, 0.05, 1e-2, 0.1, 3, 0), ins=[gb, P.g], outs=[gx], out=lambda: gx.np[:P.m], valid=b01(kind == "ok"), **f)
    gb.free(), gx.free()
    return s


def breg(sz="", **f):
    r, c = SHAPE[sz]
    gf, gu = G(image(r, c)), G(r * c)
    s = call("breg" + sz, "solve", lambda: f_breg(r, c, gu.p, gf.p, 2.0, 1e-3, 9, 1), ins=[gf], outs=[gu], out=lambda: gu.np, **f)
    gf.free(), gu.free()
    return s


FAM = {"dct1": ("dct1", 3, 4, 1, 1, 0, 0), "dct1h": ("dct", 3, 4, 1, 1, 0, 0), "dct2": ("dct2", 3, 4, 2, 1, 0, 0), "dct2h": ("dct", 4, 3, 2, 1, 0, 0),
       "tva": ("dcttv", 3, 4, 2, 1, 1.0, 0.5), "tvs": ("dcttv", 4, 3, 2, 2, 0.7, 1.0), "tva1": ("dcttv", 4, 4, 1, 1, 0.0, 2.0), "tvs1": ("dcttv", 3, 5, 1, 2, 1.0, 0.0), "tva0": ("dcttv", 5, 4, 2, 1, 0.0, 0.0), "tvs0": ("dcttv", 3, 6, 1, 2, 0.0, 0.0), "tva2": ("dcttv", 2, 6, 1, 1, 0.0, 0.0), "dct1r": ("dct", 1, 13, 1, 1, 0, 0), "mat": ("mat", NX, MX, 0, 0, 0, 0)}
ax0 = {k: ax_new() for k in FAM}
gidx = G(np.array([1, 5, 2, 11, 8], dtype=np.int32), dtype=np.int32)


def setup(f, **flt):
    api, r, c, mode, bp, av, ah = FAM[f]
    ax = ax0[f]
    ax_poison(ax, 0)
    fn = {"dct1": lambda: s_dct1(5, r * c, gidx.p, ax), "dct2": lambda: s_dct2(5, r, c, gidx.p, ax), "dct": lambda: s_dct(5, r, c, mode, gidx.p, ax),
          "dcttv": lambda: s_dcttv(5, r, c, av, ah, mode, bp, gidx.p, ax), "mat": lambda: s_mat(NX, MX, gA.p, ax)}[api]

    def probe():
        m, n = ax_int(ax, b"m"), ax_int(ax, b"n")
        gx, gy, gz = G(np.cos(np.arange(m) * 1.3) + 2), G(n), G(m)
        ax_call(ax, b"Ax", gx.p, gy.p), ax_call(ax, b"Aty", gy.p, gz.p)
        v = np.concatenate([gy.np, gz.np])
        gx.free(), gy.free(), gz.free()
        return v
    return call("setup-" + f, "setup", fn, ins=[gidx, gA], out=probe, slot="M" if f == "mat" else "D", rtol="1e-9", **flt)


def destroy(f):
    def go():
        ax_destroy(ax0[f])
        return 0
    return call("destroy-" + f, "destroy", go, slot="M" if f == "mat" else "D")


def refused(f, k=None):
    ax = ax_new()
    bad = G(np.array(rnd.choice([[1, 99, 2], [0, 5, -1], [16, 3, 1]]), dtype=np.int32), dtype=np.int32)
    ok = G(np.array([1, 3, 2], dtype=np.int32), dtype=np.int32)
    bp = rnd.choice([1, 2])
    dm = rnd.choice([1, 2])
    fn = rnd.choice({"dct": [lambda: s_dct(3, 4, 4, dm, bad.p, ax), lambda: s_dct(3, 4, 0, dm, ok.p, ax), lambda: s_dct(3, -1, 4, dm, ok.p, ax)],
                     "tv": [lambda: s_dcttv(3, 4, 4, 1.0, 1.0, dm, bp, bad.p, ax), lambda: s_dcttv(3, 4, 4, -1.0, 1.0, dm, bp, ok.p, ax), lambda: s_dcttv(0, 4, 4, 1.0, 1.0, dm, bp, ok.p, ax),
                            lambda: s_dcttv(3, 2, 4, 1.0, 0.0, dm, bp, ok.p, ax)],
                     "mat": [lambda: s_mat(0, 3, gA.p, ax), lambda: s_mat(3, -2, gA.p, ax)]}[f])
    call("refused-" + f, "setup", fn, ins=[bad, ok], valid=0)


def end():
    PRE.pre_start()
    s = state()
    PRE.pre_reset()
    if any(s):
        PRE.pre_forget()    # a leak is charged to the case that made it
    PRE.pre_stop()
    emit(e="End", h1=s[0], p1=s[1], f1=s[2])


def fault():
    EP = {}
    for z in SIZES:
        EP["newton" + z], EP["breg" + z], EP["nesta" + z] = (lambda z=z, **f: newton(sz=z, **f)), (lambda z=z, **f: breg(sz=z, **f)), (lambda z=z, **f: nesta(sz=z, **f))
        EP["l1qc1" + z], EP["l1qc2" + z] = (lambda z=z, **f: l1qc("ok", 1, z, **f)), (lambda z=z, **f: l1qc("ok", 2, z, **f))
    for f in FAM:
        EP["setup-" + f] = lambda f=f, **k: setup(f, **k)
    for name in A["eps"]:
        fn = EP[name]
        fam = name[6:] if name.startswith("setup-") else None
        emit(e="Case", ep=name)
        PRE.pre_start(), PRE.pre_stop()
        _, nreq = fn()
        if fam:
            destroy(fam)
        end()
        for mode in (0, 1, 2):
            for k in range(nreq):
                # a successful call of the same kind may have left stale pointers behind
                st, _ = fn(k=k, mode=mode)
                if fam and st == 0:
                    destroy(fam)
                st, _ = fn()
                if fam and st == 0:
                    destroy(fam)
                end()
        # repeated failures in a row, then success
        for k in list(range(nreq))[::2]:
            fn(k=k, mode=0), fn(k=max(0, k - 1), mode=1), fn(k=k, mode=1)
            st, _ = fn()
            if fam and st == 0:
                destroy(fam)
            end()
        # solvers: fault while a matrix set is live, then use the set
        if not fam:
            for k in range(0, nreq, 3):
                setup("mat")
                fn(k=k, mode=0)
                fn()
                destroy("mat")
                end()


def hist():
    for h in A["hist"]:
        emit(e="Case", h=" ; ".join(h))
        live = {}
        for a in h + ["destroy D", "destroy M"]:
            w = a.split()
            if w[0] == "setup":
                f = {"dct1": ["dct1", "dct1h", "dct1r"], "dct2": ["dct2", "dct2h"], "tva": ["tva", "tva1", "tva0", "tva2"], "tvs": ["tvs", "tvs1", "tvs0"], "mat": ["mat"]}[w[1]]
                f = rnd.choice(f)
                if setup(f)[0] == 0:
                    live["M" if f == "mat" else "D"] = f
            elif w[0] == "destroy":
                f = live.pop(w[1], None)
                if f:
                    destroy(f)
            elif w[0] == "refused":
                refused(w[1])
            elif w[0] == "breg":
                breg(rnd.choice(SIZES))
            elif w[0].startswith("newton"):
                newton(b01(w[0] == "newton-ok"), **({"ax": ax0["mat"]} if "M" in live else {"sz": rnd.choice(SIZES)}))
            elif w[0].startswith("nesta"):
                nesta(w[0][6:], rnd.choice(SIZES))
            elif w[0].startswith("l1qc"):
                l1qc(w[0][5:], rnd.choice([1, 2]), rnd.choice(SIZES))
        end()


fault() if A["what"] == "fault" else hist()
