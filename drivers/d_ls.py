"""C09: both line searches, driven through answer sequences of the objective."""
from common import *
F1 = C.CFUNCTYPE(d, vp, dp)
F2 = C.CFUNCTYPE(d, vp, dp, dp)
ls1 = sig("ls1", None, i, vp, vp, vp, d, F1, d, d, d, vp, vp)
ls2 = sig("ls2", None, i, vp, vp, vp, vp, vp, d, F2, d, d, d, vp, vp)


def search(m, hist, two, exact, clobber):
    if exact:      # dyadic data: the sufficient-decrease line is exact
        x, u, dx, du = [rng.integers(-8, 9, m) / 4.0 for _ in range(4)]
        s, al, be, slope, f0 = rnd.choice([1.0, 0.5, 2.0]), 0.25, 0.5, -rnd.choice([1.0, 4.0, 0.5]), rnd.choice([0.0, 3.0, -2.5, 8.0])
    else:
        x, u, dx, du = [rvec(m) for _ in range(4)]
        s, al, be, slope, f0 = rng.uniform(0.1, 1.5), rnd.choice([0.01, 0.3, 1e-4]), rnd.choice([0.5, 0.9, 0.1, 0.7]), -rng.uniform(0.01, 100), rng.normal() * 10
    gx, gu, gdx, gdu, gf = G(x), G(u), G(dx), G(du), G([f0])
    w = [G(m), G(m)]
    out = (d * 4)()
    emit(e="Search", x=vec(x), u=vec(u), dx=vec(dx), du=vec(du), two=b01(two), s=num(s), alpha=num(al), beta=num(be), slope=num(slope),
         f0=num(f0), clobber=b01(clobber))
    st = {"k": 0, "step": s, "n": 0}

    def answer(xp, up):
        st["n"] += 1
        if st["n"] > 200:
            os._exit(97)
        a = hist[min(st["k"], len(hist) - 1)]
        flin = f0 + al * st["step"] * slope
        sc = abs(flin) + abs(slope) + 1
        f = {"nan": float("nan"), "hi": flin + sc * rnd.choice([1e-3, 1.0, 1e6] if not exact else [2.0 ** -20, 1.0]), "inf": float("inf"), "eq": flin,
             "lo": flin - sc * rnd.choice([1e-3, 1.0] if not exact else [2.0 ** -20, 1.0]), "ninf": float("-inf")}[a]
        if a == "eq" and not exact:
            f = flin - sc * 1e-9
        st["k"] += 1
        st["step"] *= be
        if clobber:
            gf.np[0] = f
        emit(e="Trial", xp=vec(np.ctypeslib.as_array(xp, (m,))), up=vec(np.ctypeslib.as_array(up, (m,))) if two else "", f=num(f), ans=a,
             argsame=b01(gx.same() and gdx.same() and (not two or (gu.same() and gdu.same()))))
        return f
    note("ls m=%d two=%d" % (m, two))
    if two:
        cb = F2(lambda _, xp, up: answer(xp, up))
        ls2(m, gx.p, gu.p, gdx.p, gdu.p, gf.p, slope, cb, s, al, be, parr(w), out)
    else:
        cb = F1(lambda _, xp: answer(xp, None))
        ls1(m, gx.p, gdx.p, gf.p, slope, cb, s, al, be, w[0].p, out)
    allg = [gx, gu, gdx, gdu, gf] + w
    emit(e="Done", status=int(out[3]), iter=int(out[2]), step=num(out[1]), flin=num(out[0]), x=vec(gx.np), u=vec(gu.np), f=num(gf.np[0]),
         dsame=b01(gdx.same() and gdu.same()), guard=b01(all(g.ok() for g in allg)))
    for g in allg:
        g.free()


for n, h in enumerate(A["hists"]):
    emit(e="Case", n=n)
    h = h["hist"]
    m = rnd.choice([1, 2, 3, 4, 5, 7, 8, 9, 13, 16, 17, 31] if n % 19 else [100, 257, 1031])
    for two in (0, 1):
        search(m, h, two, exact="eq" in h or rnd.random() < 0.4, clobber=rnd.random() < 0.5)
