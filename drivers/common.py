"""Shared by all drivers: the shim, guarded vectors, trace output."""
import atexit, ctypes as C, json, os, random, sys
import numpy as np

A = json.load(open(sys.argv[1]))
SEED, TIER = A["seed"], A["tier"]
THOROUGH = TIER == "thorough"
S = C.CDLL(A["shim"], mode=C.RTLD_GLOBAL)
SUB = A.get("sub", 0)
rng = np.random.default_rng(SEED * 7919 + 13 + 1000003 * SUB)
rnd = random.Random(SEED * 104729 + 5 + 1000003 * SUB)
_out = open(A["out"], "w")
_note = os.open(A["note"], os.O_RDWR | os.O_CREAT | os.O_TRUNC)
dp, ip, vp, d, i = C.POINTER(C.c_double), C.POINTER(C.c_int), C.c_void_p, C.c_double, C.c_int


def sig(name, res, *args):
    f = getattr(S, name)
    f.restype, f.argtypes = res, list(args)
    return f


def note(s):
    os.pwrite(_note, s.encode()[:250].ljust(256, b"\0"), 0)


def num(x):
    x = float(x)
    if x != x:
        return "nan"
    if x in (float("inf"), float("-inf")):
        return "inf" if x > 0 else "-inf"
    return repr(x)


def vec(a):
    return " ".join(num(x) for x in np.asarray(a, dtype=float).ravel())


if A.get("poison"):
    # the library's own heap blocks are poisoned when obtained and released and
    # carry canaries: reads and writes outside them show up in the results
    PRE = C.CDLL(A["pre"])
    PRE.pre_target.argtypes = [C.c_char_p]
    if PRE.pre_target(b"libl1c.so") < 1:
        raise SystemExit("library not found by the monitor")
    PRE.pre_start()

    def _flush(*_):
        over = sum(1 for q in range(PRE.pre_nev()) if PRE.pre_ev(q, 0) in (4, 8, 9, 12)) + PRE.pre_damaged()
        if over:
            _out.write(json.dumps(dict(e="Damage", n=over)) + "\n")
        PRE.pre_reset()
    atexit.register(_flush)
else:
    def _flush(*_):
        pass


def emit(**k):
    if k.get("e") == "Case":
        _flush()
    _out.write(json.dumps(k) + "\n")
    _out.flush()


def b01(x):
    return 1 if x else 0


g_new = sig("g_new", vp, C.c_long, C.POINTER(C.c_long))
g_ok = sig("g_ok", i, vp, C.c_long, C.c_long)
g_del = sig("g_del", None, vp, C.c_long, C.c_long)


class G:
    """guarded vector; dtype float64 or int32"""
    def __init__(self, a, dtype=np.float64, fill=None):
        if np.isscalar(a):
            n, a = int(a), None
        else:
            a = np.asarray(a, dtype=dtype).ravel()
            n = a.size
        self.n, self.bytes = n, n * np.dtype(dtype).itemsize
        mp = C.c_long()
        self.addr = g_new(self.bytes, C.byref(mp))
        self.mapped = mp.value
        if n:
            buf = (C.c_char * self.bytes).from_address(self.addr)
            self.np = np.frombuffer(buf, dtype=dtype)
        else:
            self.np = np.zeros(0, dtype)
        if n:
            if a is not None:
                self.np[:] = a
            else:
                self.np[:] = 777.25 if fill is None else fill
        self.keep = self.np.tobytes()

    @property
    def p(self):
        return C.c_void_p(self.addr)

    @property
    def dp(self):
        return C.cast(C.c_void_p(self.addr), dp)

    def snap(self):
        self.keep = self.np.tobytes()

    def same(self):
        return self.np.tobytes() == self.keep

    def ok(self):
        return bool(g_ok(self.addr, self.bytes, self.mapped))

    def free(self):
        if self.addr:
            self.np = None
            g_del(self.addr, self.bytes, self.mapped)
            self.addr = None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.free()


def parr(gs):
    """double** from guarded vectors"""
    t = (C.c_void_p * len(gs))()
    for k, g in enumerate(gs):
        t[k] = g.addr
    return t


def rvec(n, kind=None):
    kind = kind or rnd.choice(["int", "normal", "normal", "sparse", "big", "small"])
    if kind == "int":
        return rng.integers(-9, 10, n).astype(float)
    if kind == "sparse":
        v = np.zeros(n)
        if n:
            v[rng.integers(0, n, max(1, n // 6))] = rng.normal(size=max(1, n // 6))
        return v
    if kind == "big":
        return rng.normal(size=n) * 1e6
    if kind == "small":
        return rng.normal(size=n) * 1e-6
    return rng.normal(size=n)


def basis(n, k):
    v = np.zeros(n)
    v[k] = 1.0
    return v
