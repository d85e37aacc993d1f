"""C16: replay of allocation histories."""
from common import *
m_alloc = sig("m_alloc", vp, i, i)
m_alloc2 = sig("m_alloc2", vp, i, i, i)
m_free = sig("m_free", None, vp)
m_free2 = sig("m_free2", None, i, vp)
DAL = sig("dalign", i)()
MON = A.get("monitor")
PRE = None
if MON:
    PRE = C.CDLL(A["pre"])
    PRE.pre_fail.argtypes = [C.c_long, i]
    assert PRE.pre_target(b"libl1c.so") > 0
libc = C.CDLL(None)
libc.malloc.restype, libc.malloc.argtypes, libc.free.argtypes = vp, [C.c_size_t], [vp]


def nlive():
    return PRE.pre_live(0) if PRE else 0


def dfree():
    return sum(1 for k in range(PRE.pre_nev()) if PRE.pre_ev(k, 0) in (4, 9, 12)) if PRE else 0


def view(p, n):
    return np.frombuffer((C.c_double * n).from_address(p), dtype=float) if n else np.zeros(0)


class Blk:
    def __init__(self, kd, r, c, p):
        self.kd, self.r, self.c, self.p = kd, r, c, p
        if kd in ("m1", "c1"):
            self.rows = [p]
        else:
            self.rows = list((C.c_void_p * r).from_address(p)) if r else []
        self.pat = None

    def write(self):
        self.pat = float(rnd.randrange(1, 1 << 50)) + 0.5
        for k, q in enumerate(self.rows):
            view(q, self.c)[:] = self.pat + k

    def intact(self):
        return self.pat is None or all((view(q, self.c) == self.pat + k).all() for k, q in enumerate(self.rows))


def dirty():
    """leave dirty memory of the usual sizes in the allocator's free lists"""
    ps = [libc.malloc(s) for s in (24, 64, 200, 500, 1000, 5000) for _ in range(6)]
    for p, s in zip(ps, [s for s in (24, 64, 200, 500, 1000, 5000) for _ in range(6)]):
        C.memset(p, 0xEE, s)
    for p in ps:
        libc.free(p)


def run(h, sizes):
    live = {}
    emit(e="Case", h=json.dumps(h)[:200])
    if PRE:
        PRE.pre_start(), PRE.pre_forget()

    def common():
        return dict(intact=b01(all(b.intact() for b in live.values())), damaged=PRE.pre_damaged() if PRE else 0, dfree=dfree(), mon=b01(PRE))
    for op, s, kd, fl in h + [["free", k, "", 0] for k in ("a", "b", "c")]:
        before = nlive()
        if op == "alloc":
            if s in live:
                continue
            c = rnd.choice(sizes)
            r = 1 if kd in ("m1", "c1") else rnd.choice([1, 2, 2, 3, 5])
            if fl and not PRE:
                continue
            nreq = 1 if kd in ("m1", "c1") else 1 + r
            k = 0 if not fl else min(fl, nreq)
            if k == 3 and fl == 3:
                k = nreq
            if not PRE:
                dirty()
            note("alloc %s r=%d c=%d fail=%d" % (kd, r, c, k))
            n0 = PRE.pre_nev() if PRE else 0
            if PRE:
                PRE.pre_fail(k - 1 if k else -1, 0)
            z = 1 if kd in ("c1", "c2") else 0
            p = m_alloc(c, z) if kd in ("m1", "c1") else m_alloc2(r, c, z)
            failed = sum(1 for q in range(n0, PRE.pre_nev()) if PRE.pre_ev(q, 0) == 3) if PRE else 0
            if PRE:
                PRE.pre_fail(-1, 0)
            if not p:
                emit(e="Alloc", s=s, kd=kd, r=r, c=c, failed=failed, null=1, before=before, after=nlive(), aligned=0, zero=0, usable=0, **common())
                continue
            b = Blk(kd, r, c, p)
            al = all(q and q % DAL == 0 for q in b.rows)
            zero = all((view(q, c) == 0).all() for q in b.rows) if z else False
            bits = all(view(q, c).tobytes() == bytes(8 * c) for q in b.rows) if z else False
            b.write()
            us = b.intact()
            live[s] = b
            emit(e="Alloc", s=s, kd=kd, r=r, c=c, failed=failed, null=0, before=before, after=nlive(), aligned=b01(al), zero=b01(zero and bits), usable=b01(us), **common())
        elif op == "write" and s in live:
            live[s].write()
            emit(e="Write", s=s, **common())
        elif op == "free" and s in live:
            b = live.pop(s)
            note("free %s" % b.kd)
            m_free(b.p) if b.kd in ("m1", "c1") else m_free2(b.r, b.p)
            emit(e="Free", s=s, before=before, after=nlive(), **common())
        elif op == "freenull":
            m_free(None)
            m_free2(rnd.choice([0, 3]), None)
            emit(e="FreeNull", before=before, after=nlive(), **common())
    emit(e="End", after=nlive(), mon=b01(PRE))
    if PRE:
        PRE.pre_reset(), PRE.pre_stop()


SIZES = list(range(1, 18)) + [31, 33, 64, 65, 100, 127, 200, 511, 1000]
for h in A["hist"]:
    run(h, SIZES)
if not PRE:      # sizes swept, with recycled memory
    for c in list(range(1, 140)) + [1000, 4095, 4096, 4097, 20000, 200000]:
        for kd in ("m1", "c1", "m2", "c2"):
            run([["alloc", "a", kd, 0], ["alloc", "b", kd, 0], ["free", "a", "", 0], ["alloc", "a", "c1", 0], ["alloc", "c", "c2", 0]], [c])
