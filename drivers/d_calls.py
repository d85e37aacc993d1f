"""C23 / C24: solver calls with the caller's own operators: what the operators
are called with, and calls that are nested in or interleaved with others."""
from common import *
import threading
ax_new, ax_size = sig("ax_new", vp), sig("ax_size", i)
ax_bytes = sig("ax_bytes", None, vp, C.c_char_p)
ax_setdims = sig("ax_setdims", None, vp, i, i, i, i, d)
ax_setop = sig("ax_setop", None, vp, C.c_char_p, vp)
ax_setdestroy = sig("ax_setdestroy", None, vp, vp)
f_cg = sig("cg_cb", i, i, vp, vp, vp, vp, vp, vp, d, i, vp)
f_ls = sig("ls_cb", None, i, i, vp, vp, vp, vp, vp, d, vp, vp, d, d, d, vp, vp)
f_l1qc = sig("l1qc", None, i, vp, i, vp, vp, vp, vp, vp)
f_l1qcd = sig("l1qc_d", i, i, i, vp, i, vp, vp, vp, vp, vp)
f_nesta = sig("nesta", i, i, vp, i, vp, vp, d, d, d, i, i)
f_breg = sig("breg", i, i, i, vp, vp, d, d, i, i)
PRE.pre_room.restype, PRE.pre_room.argtypes = C.c_long, [vp]
OPF = C.CFUNCTYPE(None, vp, vp)
CGF = C.CFUNCTYPE(None, i, vp, vp, vp)
LF1, LF2 = C.CFUNCTYPE(d, vp, vp), C.CFUNCTYPE(d, vp, vp, vp)
DF = C.CFUNCTYPE(None)
XF = ["Ax", "Aty", "AtAx", "Mx", "Mty", "Wz", "Wtx", "Rx", "Rty"]
POISON = np.uint64(0xFFFFFFFFFFFFFFFF)
tls = threading.local()
lock = threading.RLock()


def say(**k):
    with lock:
        emit(**k)


def view(p, n):
    return np.frombuffer((C.c_char * (8 * n)).from_address(p), dtype=np.float64) if n else np.zeros(0)


class Call:
    """one solver call with data of its own; run() may happen many times"""
    def __init__(self, cid, kind, big=False):
        self.c, self.kind = cid, kind
        self.hook = self.rec = None       # called in every operator callback / whether to record them
        self.count = 0
        self.g = {}
        self.ro = []                      # read-only arguments
        self.ax = None
        getattr(self, "mk_" + {"pcg": "cg", "ls2": "ls1"}.get(kind, kind))(big)

    def guard(self, name, a, ro=False):
        g = self.g[name] = G(a)
        if ro:
            self.ro.append(g)
        return g

    # ---- operators -------------------------------------------------------
    def room(self, p, n):
        if not p:
            return -1
        for g in self.g.values():
            if g.addr and g.addr <= p < g.addr + max(1, g.bytes):
                return g.addr + g.bytes - p
        return PRE.pre_room(p)

    def cb(self, op, pin, pout, nin, nout, nok=True, dataok=True):
        self.count += 1
        if self.rec:
            null = not pin or (nout and not pout)
            ov = bool(nout) and not null and not (pin + 8 * nin <= pout or pout + 8 * nout <= pin)
            rin, rout = self.room(pin, nin), (self.room(pout, nout) if nout else -1)
            un = not null and (rin == -1 or rin >= 8 * nin) and bool((view(pin, nin).view(np.uint64) == POISON).any())
            say(e="Cb", c=self.c, thr=tls.k, op=op, rin=rin, rout=rout, overlap=b01(ov), null=b01(null), uninit=b01(un), nok=b01(nok), dataok=b01(dataok))
        if self.hook:
            self.hook(self)

    def mk_ax(self, Am, W, norm):
        n, m = Am.shape
        p = m if W is None else W.shape[1]
        self.n, self.m, self.p, self.q = n, m, p, m
        maps = {"Ax": (Am, m, n), "Rx": (Am, m, n), "Aty": (Am.T.copy(), n, m), "Rty": (Am.T.copy(), n, m), "AtAx": (Am.T @ Am, m, m),
                "Mx": (None, m, m), "Mty": (None, m, m), "Wz": (W, p, m), "Wtx": (None if W is None else W.T.copy(), m, p)}
        self.ax = ax_new()
        self.keep = []
        for o in XF:
            M, ni, no = maps[o]

            def f(pi, po, o=o, M=M, ni=ni, no=no):
                self.cb(o, pi, po, ni, no)
                v = view(pi, ni).copy()
                view(po, no)[:] = v if M is None else M @ v
            cf = OPF(f)
            self.keep.append(cf)
            ax_setop(self.ax, o.encode(), C.cast(cf, vp))
        df = DF(lambda: say(e="Destroyed", c=self.c))
        self.keep.append(df)
        ax_setdestroy(self.ax, C.cast(df, vp))
        ax_setdims(self.ax, n, m, m, p, norm)
        self.axb = C.create_string_buffer(ax_size())
        ax_bytes(self.ax, self.axb)

    def axsame(self):
        if self.ax is None:
            return True
        b = C.create_string_buffer(ax_size())
        ax_bytes(self.ax, b)
        return b.raw == self.axb.raw

    # ---- kinds -----------------------------------------------------------
    def mk_cg(self, big):
        N = 60 if big else rnd.choice([3, 5, 8, 13])
        B = rng.normal(size=(N, N))
        A = B @ B.T + N * np.eye(N) * 0.3
        self.n = self.m = self.p = self.q = N
        b = self.guard("b", rng.normal(size=N), True)
        mi = self.guard("minv", rng.uniform(0.3, 3, N), True) if self.kind == "pcg" else None
        D = [self.guard("D%d" % k, N) for k in range(5)]
        x = self.x = self.guard("x", N)
        x0 = rng.normal(size=N)
        tol, mx = 10 ** rng.uniform(-9, -2), rnd.choice([4, 9, 30])
        data = C.create_string_buffer(16)
        da = C.addressof(data)
        res = (d * 2)()

        def f(n, pi, po, dt):
            self.cb("A", pi, po, N, N, n == N, dt == da)
            view(po, N)[:] = A @ view(pi, N)
        cf = CGF(f)
        self.keep = [cf, data]

        def go():
            x.np[:] = x0
            return f_cg(N, x.p, b.p, mi.p if mi else None, parr(D), C.cast(cf, vp), da, tol, mx, res)
        self.go = go

    def mk_ls1(self, big):
        m = 40 if big else rnd.choice([2, 5, 9])
        two = self.kind == "ls2"
        self.n = self.m = self.p = self.q = m
        x0, u0 = rng.normal(size=m), rng.normal(size=m)
        x, u = self.x, _ = self.guard("x", m), self.guard("u", m)
        dx, du = self.guard("dx", -x0 * 3.1, True), self.guard("du", -u0 * 3.1, True)
        W = [self.guard("W%d" % k, m) for k in range(2)]
        fx = self.guard("f", 1)
        obj = (lambda a, b: 0.5 * float(a @ a + b @ b)) if two else (lambda a, b: 0.5 * float(a @ a))
        g = obj(x0, u0)
        slope = -6.2 * g
        data = C.create_string_buffer(16)
        da = C.addressof(data)
        out = (d * 4)()
        if two:
            def f(dt, px, pu):
                self.cb("F", px, None, m, 0, True, dt == da)
                self.cb("F", pu, None, m, 0, True, dt == da)
                return obj(view(px, m), view(pu, m))
            cf = LF2(f)
        else:
            def f(dt, px):
                self.cb("F", px, None, m, 0, True, dt == da)
                return obj(view(px, m), None)
            cf = LF1(f)
        self.keep = [cf, data]

        def go():
            x.np[:], u.np[:], fx.np[0] = x0, u0, g
            f_ls(b01(two), m, x.p, u.p, dx.p, du.p, fx.p, slope, da, C.cast(cf, vp), 1.0, 0.3, rnd0, parr(W), out)
            return int(out[3])
        rnd0 = rnd.choice([0.5, 0.8])
        self.go = go

    def mk_l1qc(self, big):
        m = 40 if big else rnd.choice([3, 5, 8])
        n = rnd.randint(2, m)
        q, _ = np.linalg.qr(rng.normal(size=(m, m)))
        Am = q[:n].copy()
        self.mk_ax(Am, None, 1.0)
        bb = Am @ rvec(m, "normal")
        eps = 0.2 * np.linalg.norm(bb)
        b = self.guard("b", bb, True)
        x = self.x = self.guard("x", m)
        x0 = self.x0 = Am.T @ bb
        o, oi = (d * 7)(eps, 10.0, 1e-2, 1e-3, 1e-3, 1e-6, 1.0), (i * 7)(2, rnd.choice([3, 6]), 0, 30, 0, rnd.randrange(3), 1)
        out = (d * 4)()

        def go():
            x.np[:] = x0
            f_l1qc(m, x.p, n, b.p, o, oi, self.ax, out)
            return int(out[3])
        self.go = go

    def mk_nesta(self, big):
        m = 40 if big else rnd.choice([3, 5, 8])
        n = rnd.randint(1, m)
        q, _ = np.linalg.qr(rng.normal(size=(m, m)))
        Am = q[:n].copy()
        W = None if rnd.random() < 0.3 else rng.normal(size=(m, m + rnd.randint(0, 4)))
        self.mk_ax(Am, W, 1.0 if W is None else float(np.linalg.norm(W, 2)))
        bb = Am @ rvec(m, "normal")
        b = self.guard("b", bb, True)
        x = self.x = self.guard("x", m)
        s = 0.1 * np.linalg.norm(bb)
        nc, tol, mu = rnd.choice([1, 2, 3]), 10 ** rng.uniform(-2, -1), 10 ** rng.uniform(-2, -1)

        def go():
            return f_nesta(m, x.p, n, b.p, self.ax, mu, tol, s, nc, 0)
        self.go = go

    def mk_breg(self, big):
        n, m = (50, 40) if big else rnd.choice([(3, 4), (6, 5), (9, 7)])
        self.n = self.m = self.p = self.q = n * m
        f = self.guard("f", rng.normal(size=n * m), True)
        x = self.x = self.guard("x", n * m)
        mu, mi = rnd.choice([0.5, 3.0]), rnd.choice([5, 40])

        def go():
            return f_breg(n, m, x.p, f.p, mu, 1e-9, mi, 1)
        self.go = go

    def mk_dct(self, big):
        r, c = rnd.choice([(3, 4), (5, 5)])
        tot = r * c
        n = rnd.randint(tot // 2, tot)
        self.n, self.m, self.p, self.q = n, tot, tot, tot
        idx = G(np.array(sorted(rnd.sample(range(tot), n)), dtype=np.int32), dtype=np.int32)
        self.g["idx"] = idx
        self.ro.append(idx)
        bb = rng.normal(size=n)
        b = self.guard("b", bb, True)
        x = self.x = self.guard("x", tot)
        o, oi = (d * 7)(0.3 * np.linalg.norm(bb), 10.0, 1e-2, 1e-3, 1e-3, 1e-6, 1.0), (i * 7)(2, 5, 0, 30, 0, 0, 2)
        out = (d * 4)()

        def go():
            return f_l1qcd(r, c, x.p, n, b.p, idx.p, o, oi, out)
        self.go = go

    # ---- running ---------------------------------------------------------
    def run(self, cmp=1, quiet=False, ref=0, fail=-1):
        self.count = 0
        for g in self.ro:
            g.snap()
        if not quiet:
            say(e="Enter", c=self.c, s=self.kind, thr=tls.k, n=self.n, m=self.m, p=self.p, q=self.q)
        note("%s call %d" % (self.kind, self.c))
        if fail >= 0:
            PRE.pre_fail(fail, 0)
        st = self.go()
        if fail >= 0:
            ref = int(PRE.pre_nreq() > fail)
            PRE.pre_fail(-1, 0)
        if not quiet:
            say(e="Leave", ref=ref, c=self.c, thr=tls.k, st=st, x=vec(self.x.np), cmp=cmp, guard=b01(all(g.ok() for g in self.g.values())),
                same=b01(all(g.same() for g in self.ro)), axsame=b01(self.axsame()))
        return st

    def solo(self):
        self.hook, self.rec = None, False
        self.run(quiet=True)      # twice: the second run must not depend on the first
        st = self.run(quiet=True)
        self.total = self.count
        say(e="Solo", c=self.c, x=vec(self.x.np), st=st)

    def free(self):
        for g in self.g.values():
            g.free()


WITH = ["cg", "pcg", "ls1", "ls2", "l1qc", "nesta"]      # kinds that call back
ATOM = ["breg", "dct"]
tls.k = 0


def protocol():
    for rep in range(20 if THOROUGH else 4):
        for kind in WITH:
            k = Call(1, kind, big=rep == 3)
            emit(e="Case", kind=kind)
            k.rec = True
            k.run(cmp=0)
            k.free()
    refused()


def refused():
    """calls that end early: they owe the caller's set the same respect"""
    for rep in range(6 if THOROUGH else 1):
        for o in ("Wz", "Wtx", "Rx", "Rty", "Ax", "Aty", "n", "m"):
            k = Call(1, "nesta")
            emit(e="Case", kind="nesta without " + o)
            if o in ("n", "m"):
                ax_setdims(k.ax, k.n + (o == "n"), k.m, k.m + (o == "m"), k.p, 1.0)
            else:
                ax_setop(k.ax, o.encode(), None)
            ax_bytes(k.ax, k.axb)
            k.rec = True
            k.run(cmp=0, ref=1)
            k.free()
        k = Call(1, "l1qc")
        emit(e="Case", kind="infeasible start")
        k.rec = True
        k.x0[:] = 0
        k.run(cmp=0, ref=1)
        k.free()
        for kind in ("l1qc", "nesta"):
            for f in range(12):
                k = Call(1, kind)
                emit(e="Case", kind="%s, allocation %d fails" % (kind, f))
                k.rec = True
                k.run(cmp=0, fail=f)
                k.free()


class Plan:
    """steps [thread, start|go, call]; each thread takes its own steps in turn"""
    def __init__(self, steps, calls):
        self.steps, self.calls, self.k, self.cv = steps, calls, 0, threading.Condition()
        self.stuck = False

    def turn(self):
        """blocks until the current step belongs to this thread; None when the plan is over"""
        with self.cv:
            while True:
                if self.k >= len(self.steps) or self.stuck:
                    return None
                if self.steps[self.k][0] == tls.k:
                    return self.steps[self.k]
                if not self.cv.wait(40):
                    self.stuck = True
                    say(e="Stuck", step=self.k)
                    os._exit(0)

    def next(self):
        with self.cv:
            self.k += 1
            self.cv.notify_all()

    def start(self, c):
        call = self.calls[c]
        pts = set(call.points)
        tls.top.append(c)

        def hook(k):
            if k.count in pts:
                self.pause(c)
        call.hook = hook
        call.run()
        call.hook = None
        tls.top.pop()

    def pause(self, c):
        self.next()              # this step ended at a pause
        while True:
            s = self.turn()
            if s is None or (s[1] == "go" and s[2] == c):
                return
            if s[1] == "start":
                self.start(s[2])
            self.next()          # the nested call returned (or a step of a call that is over)

    def thread(self, k):
        tls.k, tls.top = k, []
        while True:
            s = self.turn()
            if s is None:
                return
            if s[1] == "start":
                self.start(s[2])
            self.next()


def reent():
    for steps, pauses in A["plans"]:
        calls = {}
        same = rnd.random() < 0.5       # same kind with different data: shared scratch of one function
        base = rnd.choice(WITH)
        emit(e="Case", plan=json.dumps(steps))
        for c, p in enumerate(pauses, 1):
            if p == 0:
                kind = rnd.choice(ATOM + WITH)
            else:
                kind = base if same else rnd.choice(WITH)
            k = calls[c] = Call(c, kind)
            k.solo()
            n = min(p, k.total)
            k.points = sorted(rnd.sample(range(1, k.total + 1), n)) if rnd.random() < 0.6 else sorted(rnd.sample(range(1, min(k.total, n + 3) + 1), n))
        P = Plan(steps, calls)
        ts = [threading.Thread(target=P.thread, args=(t,)) for t in (1, 2)]
        [t.start() for t in ts]
        [t.join() for t in ts]
        for k in calls.values():
            k.free()


def free_run():
    """really concurrent calls, no schedule imposed"""
    for rep in range(40 if THOROUGH else 10):
        kinds = [["breg"] * 3, ["cg"] * 3, ["pcg"] * 3, [rnd.choice(["breg", "l1qc", "nesta", "cg", "pcg", "ls2"]) for _ in range(4)], ["l1qc", "nesta", "l1qc"]][rep % 5]
        calls = [Call(c, k, big=True) for c, k in enumerate(kinds)]
        emit(e="Case", kinds=" ".join(kinds))
        for k in calls:
            k.solo()
        go = threading.Barrier(len(calls))

        def work(k, t):
            tls.k = t
            go.wait()
            for _ in range(8 if k.kind == "breg" else 3):
                k.run()
        ts = [threading.Thread(target=work, args=(k, t)) for t, k in enumerate(calls)]
        [t.start() for t in ts]
        [t.join() for t in ts]
        for k in calls:
            k.free()


{"protocol": protocol, "reent": reent, "free": free_run}[A["what"]]()
