"""Transform sets: calls and recording, shared by several drivers."""
from common import *
ax_new = sig("ax_new", vp)
ax_poison = sig("ax_poison", None, vp, i)
ax_size = sig("ax_size", i)
ax_bytes = sig("ax_bytes", None, vp, C.c_char_p)
ax_int = sig("ax_int", i, vp, C.c_char_p)
ax_norm = sig("ax_norm", d, vp)
ax_has = sig("ax_has", i, vp, C.c_char_p)
ax_call = sig("ax_call", None, vp, C.c_char_p, vp, vp)
ax_destroy = sig("ax_destroy", None, vp)
s_dct1 = sig("setup_dct1", i, i, i, vp, vp)
s_dct2 = sig("setup_dct2", i, i, i, i, vp, vp)
s_dct = sig("setup_dct", i, i, i, i, i, vp, vp)
s_dcttv = sig("setup_dcttv", i, i, i, i, d, d, i, i, vp, vp)
s_mat = sig("setup_matrix", i, i, i, vp, vp)
OPS = ["Ax", "Aty", "AtAx", "Mx", "Mty", "Wz", "Wtx", "Rx", "Rty"]
PRE = None
if A.get("monitor"):
    PRE = C.CDLL(A["pre"], mode=C.RTLD_GLOBAL)
    PRE.pre_target.argtypes = [C.c_char_p]
    if PRE.pre_target(b"libl1c.so") < 1:
        raise SystemExit("libl1c.so not found in the process")


def mon_live():
    return sum(PRE.pre_live(k) for k in (0, 1, 2)) if PRE else 0


def mon_doubles():
    if not PRE:
        return 0
    bad = 0
    for k in range(PRE.pre_nev()):
        if PRE.pre_ev(k, 0) in (4, 8, 9, 12):
            bad += 1
    return bad


class Set:
    """one transform set; api: dct1 dct2 dct dcttv mat"""
    def __init__(self, api, n, r, c, idx=None, mode=2, bp=1, av=0.0, ah=0.0, mat=None):
        self.api, self.n, self.r, self.c, self.mode, self.bp, self.av, self.ah = api, n, r, c, mode, bp, av, ah
        self.idx = G(np.array(idx if idx is not None else [0], dtype=np.int32), dtype=np.int32)
        self.idxl = [] if idx is None else [int(k) for k in idx]
        self.mat = G(np.array(mat, dtype=float)) if mat is not None else None
        self.ax = ax_new()
        self.slot = "M" if api == "mat" else "D"

    def setup(self, **extra):
        ax_poison(self.ax, 0)
        size = ax_size()
        b0, b1 = C.create_string_buffer(size), C.create_string_buffer(size)
        ax_bytes(self.ax, b0)
        base = mon_live()
        note("setup %s n=%d r=%d c=%d" % (self.api, self.n, self.r, self.c))
        if PRE:
            PRE.pre_start()
        a = self.api
        if a == "dct1":
            st = s_dct1(self.n, self.r * self.c, self.idx.p, self.ax)
        elif a == "dct2":
            st = s_dct2(self.n, self.r, self.c, self.idx.p, self.ax)
        elif a == "dct":
            st = s_dct(self.n, self.r, self.c, self.mode, self.idx.p, self.ax)
        elif a == "dcttv":
            st = s_dcttv(self.n, self.r, self.c, self.av, self.ah, self.mode, self.bp, self.idx.p, self.ax)
        else:
            st = s_mat(self.n, self.c, self.mat.p if self.mat else None, self.ax)
        if PRE:
            PRE.pre_stop()
        ax_bytes(self.ax, b1)
        self.base = base
        self.live = st == 0
        same = self.idx.same() and self.idx.ok() and (self.mat is None or (self.mat.same() and self.mat.ok()))
        has = sum((1 << k) for k, o in enumerate(OPS) if ax_has(self.ax, o.encode())) if st == 0 else 0
        emit(e="Setup", api=a, n=self.n, r=self.r, c=self.c, mode=self.mode, bp=self.bp, av=num(self.av), ah=num(self.ah),
             idx=vec(self.idxl[:max(self.n, 0)]), A=vec(self.mat.np) if self.mat else "", st=st, has=has, argsame=b01(same),
             dn=ax_int(self.ax, b"n"), dq=ax_int(self.ax, b"q"), dm=ax_int(self.ax, b"m"), dp=ax_int(self.ax, b"p"),
             norm=num(ax_norm(self.ax)), untouched=b01(b0.raw == b1.raw), acq=mon_live() - base, **extra)
        return st

    def lens(self, op):
        n, q, m, p = [ax_int(self.ax, k) for k in (b"n", b"q", b"m", b"p")]
        tvs = self.api == "dcttv" and self.bp != 1
        return {"Ax": (m, n), "Aty": (n, m), "AtAx": (m, m), "Mx": (m, q), "Mty": (q, m),
                "Wz": (p, p if tvs else m), "Wtx": (m, p), "Rx": (q, n), "Rty": (n, q)}[op]

    def op(self, op, x=None, rep=1):
        ln, lo = self.lens(op)
        if x is None:
            x = rvec(ln)
        y0, seen = None, set()
        for _ in range(rep):
            gx, gy = G(x), G(lo)
            note("%s of %s n=%d r=%d c=%d" % (op, self.api, self.n, self.r, self.c))
            if not ax_has(self.ax, op.encode()):
                emit(e="Missing", op=op)
                return None
            if PRE:
                PRE.pre_start()
            ax_call(self.ax, op.encode(), gx.p, gy.p)
            if PRE:
                PRE.pre_stop()
            ok = self.idx.same() and (self.mat is None or self.mat.same())
            key = gy.np.tobytes()
            if key not in seen:
                seen.add(key)
                emit(e="Op", slot=self.slot, op=op, x=vec(x), y=vec(gy.np), xsame=b01(gx.same() and gx.ok() and ok), guard=b01(gy.ok()))
            if y0 is None:
                y0 = gy.np.copy()
            gx.free(), gy.free()
        return y0

    def adj(self, a, at):
        ln, lo = self.lens(a)
        x, y = rvec(ln, "normal"), rvec(self.lens(at)[0], "normal")
        ax, aty = self.op(a, x), self.op(at, y)
        if ax is not None and aty is not None:
            emit(e="Adj", op=a, x=vec(x), y=vec(y), ax=vec(ax), aty=vec(aty))

    def destroy(self):
        note("destroy %s n=%d r=%d c=%d" % (self.api, self.n, self.r, self.c))
        if PRE:
            PRE.pre_start()
        ax_destroy(self.ax)
        if PRE:
            PRE.pre_stop()
        self.live = False
        emit(e="Destroy", slot=self.slot, left=mon_live() - self.base, dbl=mon_doubles())

    def free(self):
        self.idx.free()
        if self.mat:
            self.mat.free()


def subset(tot, n, kind=None):
    """n distinct positions below tot, in several orders"""
    kind = kind or rnd.choice(["sorted", "sorted", "shuffled", "reversed", "ends", "run", "run-shuffled", "inner-shuffled", "rotated", "swapped"])
    s = rnd.sample(range(tot), n)
    if kind == "reversed":
        s.sort(reverse=True)
    elif kind == "ends" and tot > 1 and n > 1:
        s = sorted(set([0, tot - 1] + s[: n - 2]))
        while len(s) < n:
            k = rnd.randrange(tot)
            if k not in s:
                s.append(k)
    elif kind != "shuffled":
        s.sort()
        if kind.startswith("run"):       # a gapless run
            a = rnd.randint(0, tot - n)
            s = list(range(a, a + n))
        if kind.endswith("shuffled") and n > 3:      # first and last where order would put them
            m = s[1:-1]
            rnd.shuffle(m)
            s = [s[0]] + m + [s[-1]]
        elif kind == "rotated":
            k = rnd.randrange(n)
            s = s[k:] + s[:k]
        elif kind == "swapped" and n > 2:
            a, b = rnd.sample(range(n), 2)
            s[a], s[b] = s[b], s[a]
    return s
