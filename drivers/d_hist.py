"""C05: histories of set-up, operator calls, refused set-ups and destroy."""
from xf import *
CLASS = {"scatter": ["Aty", "AtAx", "Rty"], "gather": ["Ax", "Rx"], "dense": ["Mx", "Mty", "Wz", "Wtx"]}


LAST = {}


def mk(f):
    """a new set; every other time it differs from the last one of its family in one argument only"""
    q = LAST.get(f)
    if q and rnd.random() < 0.5:
        api, n, r, c, mode, bp, av, ah, mat, idx = q
        k = rnd.choice(["idx", "idx", "order", "n", "w", "same", "turn", "api"])
        if f == "mat":
            if k == "turn":
                n, c = c, n
            elif k != "same":
                mat = rvec(n * c, "normal")
            LAST[f] = (api, n, r, c, mode, bp, av, ah, mat, idx)
            return Set("mat", n, 1, c, mat=mat)
        if k == "idx":
            idx = subset(r * c, n)
        elif k == "order":
            idx = rnd.sample(list(idx), n)
        elif k == "n":
            n = rnd.randint(1, r * c)
            idx = subset(r * c, n)
        elif k == "turn" and f != "dct1":
            r, c = c, r
        elif k == "api" and f in ("dct1", "dct2"):
            api = f if api == "dct" else "dct"
        elif f[0] == "t":
            if k == "w":
                av, ah = rnd.choice([(ah, av), (2 * av, ah), (0.0, ah), (av, 0.0), (0.4, 1.2)])
            elif k == "api":
                mode = 3 - mode
        LAST[f] = (api, n, r, c, mode, bp, av, ah, mat, list(idx))
        return Set(api, n, r, c, idx, mode=mode, bp=bp, av=av, ah=ah)
    s = mk0(f)
    LAST[f] = (s.api, s.n, s.r, s.c, s.mode, s.bp, s.av, s.ah, None if f != "mat" else s.mat.np.copy(), None if f == "mat" else list(s.idxl))
    return s


def mk0(f):
    if f == "mat":
        n, m = rnd.randint(1, 7), rnd.randint(1, 7)
        return Set("mat", n, 1, m, mat=rvec(n * m, "normal"))
    if f in ("dct1", "dct2"):
        r, c = (rnd.randint(1, 14), 1) if f == "dct1" else (rnd.randint(2, 5), rnd.randint(2, 5))
        api = rnd.choice([f, "dct"])
        n = rnd.randint(1, r * c)
        return Set(api, n, r, c, subset(r * c, n), mode=1 if f == "dct1" else 2)
    r, c = rnd.randint(3, 5), rnd.randint(3, 5)
    av, ah = rnd.choice([(0.0, 0.0), (1.5, 0.0), (0.0, 0.7), (0.4, 1.2)])
    n = rnd.randint(1, r * c)
    return Set("dcttv", n, r, c, subset(r * c, n), mode=rnd.choice([1, 2]), bp=1 if f == "tva" else 2, av=av, ah=ah)


def bad(f):
    if f == "mat":
        s = Set("mat", rnd.choice([0, -1]), 1, rnd.choice([3, 0]), mat=rvec(16))
    elif f == "dct":
        s = rnd.choice([lambda: Set("dct", 0, 3, 3, [1]), lambda: Set("dct", 2, 2, 3, [0, 6]), lambda: Set("dct", 2, 3, 4, [-1, 3]),
                        lambda: Set("dct", 1, 0, 3, [0]), lambda: Set("dct", 1, 3, -2, [0])])()
    else:
        bp = rnd.choice([1, 2])
        s = rnd.choice([lambda: Set("dcttv", 2, 2, 3, [0, 1], av=1.0, bp=bp), lambda: Set("dcttv", 2, 3, 2, [0, 1], ah=1.0, bp=bp),
                        lambda: Set("dcttv", 1, 6, 7, [42], bp=bp), lambda: Set("dcttv", 1, 6, 7, [-3], ah=2.0, av=1.0, bp=bp),
                        lambda: Set("dcttv", 1, 4, 4, [1], av=-1.0, bp=bp), lambda: Set("dcttv", 1, 4, 4, [1], ah=-0.5, av=1.0, bp=bp),
                        lambda: Set("dcttv", 0, 4, 4, [1], bp=bp)])()
    s.setup()
    s.free()


def run(h):
    live = {"D": None, "M": None}
    emit(e="Case", h=" ; ".join(h))
    if PRE:
        PRE.pre_start(), PRE.pre_forget(), PRE.pre_stop()
    for a in h + ["D dense", "D scatter", "M any", "destroy D", "destroy M"]:
        w = a.split()
        if w[0] == "setup":
            s = mk(w[1])
            if s.setup() == 0:
                live[s.slot] = s
        elif w[0] == "refused":
            bad(w[1])
        elif w[0] == "destroy":
            s = live[w[1]]
            if s:
                other = live["M" if w[1] == "D" else "D"]
                s.base = 0 if other is None else mon_live() - s.own
                s.destroy(), s.free()
                live[w[1]] = None
        else:
            s = live[w[0]]
            if s:
                s.op(rnd.choice(OPS) if w[1] == "any" else rnd.choice(CLASS[w[1]]))
        for s in live.values():
            if s and not hasattr(s, "own"):
                s.own = mon_live() - s.base


H = A["hist"]
for h in H:
    run(h)
# every ordered pair of operators on every family, with different inputs
for f in ("dct1", "dct2", "tva", "tvs", "mat"):
    for rep in range(3 if THOROUGH else 1):
        emit(e="Case", h="pairs " + f)
        s = mk(f)
        if f != "mat":
            n = max(1, s.n - 1)
            s.n = n
        if s.setup() == 0:
            for a in OPS:
                for b in OPS:
                    s.op(a), s.op(b)
            s.destroy()
        s.free()
