"""C21: sinks, verbosity, and what reaches standard output."""
import re
from xf import *
log_replace, log_current = sig("log_replace", i, i), sig("log_current", i)
log_len, log_text, log_clear = sig("log_len", C.c_long, i), sig("log_text", C.c_char_p, i), sig("log_clear", None)
log_say, flush_all = sig("log_say", None, C.c_char_p), sig("flush_all", None)
cg = sig("cg", i, i, vp, vp, vp, vp, vp, d, i, i, dp)
ax_dense = sig("ax_dense", None, vp, i, i, i, vp, vp, d)
f_l1qc = sig("l1qc", None, i, vp, i, vp, vp, vp, vp, vp)
f_l1qcd = sig("l1qc_d", i, i, i, vp, i, vp, vp, vp, vp, vp)
f_nesta = sig("nesta", i, i, vp, i, vp, vp, d, d, d, i, i)
f_breg = sig("breg", i, i, i, vp, vp, d, d, i, i)
F1 = C.CFUNCTYPE(d, vp, dp)
F2 = C.CFUNCTYPE(d, vp, dp, dp)
ls1 = sig("ls1", None, i, vp, vp, dp, d, F1, d, d, d, vp, dp)
ls2 = sig("ls2", None, i, vp, vp, vp, vp, dp, d, F2, d, d, d, vp, dp)
real1, real2 = os.dup(1), os.dup(2)
cap = [os.open(os.path.join(A["scratch"], "%s.cap%d" % (os.path.basename(A["out"]), k)), os.O_RDWR | os.O_CREAT | os.O_TRUNC) for k in (1, 2)]


def captured(fn):
    """runs fn; returns (result, bytes per sink 0..4, text of all sinks, stderr bytes)"""
    flush_all(), sys.stdout.flush(), sys.stderr.flush()
    for c in cap:
        os.ftruncate(c, 0), os.lseek(c, 0, 0)
    log_clear()
    os.dup2(cap[0], 1), os.dup2(cap[1], 2)
    try:
        r = fn()
    finally:
        flush_all()
        os.dup2(real1, 1), os.dup2(real2, 2)
    so = os.pread(cap[0], 1 << 22, 0)
    se = os.pread(cap[1], 1 << 16, 0)
    dl = [log_len(k) for k in range(4)] + [len(so)]
    txt = b"".join(log_text(k) for k in range(4) if log_len(k)) + so
    return r, dl, txt.decode("latin1"), len(se)


WARN = re.compile(r"[Ll]ine search failed|line-search values|^\s+(iter|fp|flin|fp-flin|step|ls_params.s)\s+=|Warning: maximum step|Trying smax|Unable to solve system|Returning previous iterate")


def parse(t):
    it, best, lb, nt, ct, inner, warn, other, tot, tail = [], [], [], [], [], [], 0, 0, [], 0
    for ln in t.split("\n"):
        m = re.match(r"\s*(\d+),\s+(\S+), (\S+), (\S+), (\S+), (\S+)\s*$", ln)
        if m:
            it.append(int(m.group(1))), best.append(m.group(2))
            tail = 0
            continue
        m = re.search(r"LB iter: (\d+),.*newton-iter: (\d+),.*CG iter=(\d+)", ln)
        if m:
            lb.append(int(m.group(1)))
            tail = 0
            tot = [int(m.group(2)), int(m.group(3))]
            continue
        m = re.match(r"\s+(\d+)\s+(\S+)\s+(\S+)\s+(\S+)\s+(\S+)\s+(\d+)\s+(\d+)\s+(\S+)\s*$", ln)
        if m:
            nt.append(int(m.group(1)))
            tail = 0
            continue
        m = re.search(r"continuation iter (\d+)", ln)
        if m:
            ct.append(int(m.group(1)))
            tail = 0
            continue
        m = re.match(r"(\d+)\s+(\S+)\s+(\S+)\s*$", ln)
        if m:
            inner.append(int(m.group(1)))
            tail = 0
            continue
        if WARN.search(ln) or (tail and re.match(r"\s+\S", ln)):     # an indented line after a warning belongs to it
            warn, tail = warn + 1, 1
            continue
        if ln.strip():
            tail = 0
        if ln.strip():
            other += 1
    return dict(it=it, best=" ".join(best), lb=lb, nt=nt, ct=ct, inner=inner, warn=warn, other=other, tot=tot)


def run(ep, solver, v, fn, cgv=0, lbn=0, fails=0):
    note("%s v=%d" % (ep, v))
    r, dl, txt, ne = captured(fn)
    emit(e="Solve", ep=ep, solver=solver, v=v, cgv=cgv, d=dl, err=ne, now=log_current(), lbn=lbn, fails=fails, st=r["st"], x=vec(r["x"]), iter=r.get("iter", 0), niter=r.get("niter", 0), resid=num(r.get("resid", 0)), **parse(txt))


grng = np.random.default_rng(SEED)


def cgprob(n):
    q, _ = np.linalg.qr(grng.normal(size=(n, n)))
    M = q @ np.diag(grng.uniform(1, 30, n)) @ q.T
    return dict(n=n, A=G((M + M.T) / 2), b=G(grng.normal(size=n)), m=G(1 / np.diag(M)))


CGP = [cgprob(9), cgprob(14)]


def do_cg(k, prec, v, maxit):
    P = CGP[k]

    def go():
        x, D, res = G(np.zeros(P["n"])), [G(P["n"]) for _ in range(5)], (d * 3)()
        st = cg(P["n"], x.p, P["b"].p, P["m"].p if prec else None, parr(D), P["A"].p, 1e-9, maxit, v, res)
        r = dict(st=st, x=x.np.copy(), iter=int(res[1]), resid=res[0])
        for g in D + [x]:
            g.free()
        return r
    run("cg%d-%d-%d" % (k, prec, maxit), "cg", v, go)


q, _ = np.linalg.qr(grng.normal(size=(12, 12)))
NEW = q[:6].copy()
gA = G(NEW)
xt = np.zeros(12)
xt[[2, 9]] = 2.0, -1.0
gB = G(NEW @ xt + 0.01)
AX = ax_new()
ax_dense(AX, 6, 12, 12, gA.p, None, 1.0)


def opts(v, cgv, eps, lbn, mode=1):
    hard = lbn == 12    # run into line-search failures
    return (d * 7)(eps, 1e3 if hard else 10.0, 1e-2, 1e-30 if hard else 1e-3, 0.0 if hard else 1e-3, 1e-10, 1.0), (i * 7)(lbn, 15, v, 80, cgv, 1, mode)


def do_newton(v, cgv, lbn):
    def go():
        x = G(NEW.T @ gB.np)
        o, oi = opts(v, cgv, 0.05, lbn)
        out = (d * 4)()
        f_l1qc(12, x.p, 6, gB.p, o, oi, AX, out)
        r = dict(st=int(out[3]), x=np.append(x.np, out[0]), niter=int(out[1]), iter=int(out[2]))
        x.free()
        return r
    run("newton%d" % lbn, "l1qc", v, go, cgv, lbn)


IMG = np.add.outer(np.arange(4.0), np.cos(np.arange(5.0))).ravel()
gi = G(np.array([0, 2, 3, 6, 8, 11, 13, 14, 17, 19], dtype=np.int32), dtype=np.int32)
gm = G(IMG[gi.np])


def do_dct(v, cgv, lbn, mode):
    def go():
        x, out = G(20), (d * 4)()
        o, oi = opts(v, cgv, 0.1, lbn, mode)
        st = f_l1qcd(4, 5, x.p, 10, gm.p, gi.p, o, oi, out)
        r = dict(st=st, x=np.append(x.np, out[0]), niter=int(out[1]), iter=int(out[2]))
        x.free()
        return r
    run("dct%d-%d" % (lbn, mode), "l1qc", v, go, cgv, lbn)


def do_nesta(v, nc):
    def go():
        x = G(12)
        st = f_nesta(12, x.p, 6, gB.p, AX, 0.02, 1e-3, 0.1, nc, v)
        r = dict(st=st, x=x.np.copy())
        x.free()
        return r
    run("nesta%d" % nc, "nesta", v, go, lbn=nc)


gf = G(IMG)


def do_breg():
    def go():
        u = G(20)
        st = f_breg(4, 5, u.p, gf.p, 2.0, 1e-3, 9, 1)
        r = dict(st=st, x=u.np.copy())
        u.free()
        return r
    run("breg", "breg", 0, go)


def do_ls(fails, two):
    def go():
        x, w, dx, fx, out = G(3, fill=1.0), G(3), G(3, fill=-0.1), d(1.0), (d * 4)()
        u, du, w2 = G(3, fill=1.0), G(3, fill=0.1), G(3)
        val = 5.0 if fails else 0.0
        if two:
            ls2(3, x.p, u.p, dx.p, du.p, fx, -1.0, F2(lambda p, a, b: val), 1.0, 0.01, 0.5, parr([w, w2]), out)
        else:
            ls1(3, x.p, dx.p, fx, -1.0, F1(lambda p, a: val), 1.0, 0.01, 0.5, w.p, out)
        r = dict(st=b01(int(out[3]) != fails), x=np.append(x.np, fx.value), iter=int(out[2]))
        for g in (x, w, dx, u, du, w2):
            g.free()
        return r
    run("ls%d%d" % (fails, two), "ls", 0, go, fails=fails)


for h in A["hist"]:
    emit(e="Case", h=" ; ".join(h), cur=log_current())
    used = set()
    pick = {"cg": rnd.choice([0, 1]), "maxit": rnd.choice([1, 2, 5, 40, 40]), "lbn": rnd.choice([1, 2, 3, 12]), "mode": rnd.choice([1, 2]), "nc": rnd.choice([1, 2, 4]), "fails": rnd.choice([0, 1]), "two": rnd.choice([0, 1])}

    def solve(s, v, cgv):
        if s in ("cg", "cgp"):
            do_cg(pick["cg"], b01(s == "cgp"), v, pick["maxit"])
        elif s == "newton":
            do_newton(v, cgv, pick["lbn"])
        elif s == "dct":
            do_dct(v, cgv, pick["lbn"], pick["mode"])
        elif s == "nesta":
            do_nesta(v, pick["nc"])
        elif s == "breg":
            do_breg()
        else:
            do_ls(pick["fails"], pick["two"])
    for a in h:
        w = a.split()
        if w[0] == "replace":
            k = int(w[1])
            note(a)
            r = log_replace(k)
            emit(e="Replace", k=k, ret=r, now=log_current())
        elif w[0] == "say":
            s = "x%d %%d hello\n" % rnd.randrange(10 ** rnd.randrange(1, 9))
            _, dl, txt, ne = captured(lambda: log_say(s.encode()))
            emit(e="Say", len=len(s), d=dl)
        else:
            if w[0] not in used:    # reference run with every report switched on
                used.add(w[0])
                solve(w[0], 1 if w[0] not in ("newton", "dct") else 2, 1)
            v = int(w[1]) if w[1] != "v" else rnd.choice([3, 4, 5, 7, 10])
            solve(w[0], v, rnd.choice([0, 0, 1, 2, 3]) if v or rnd.random() < 0.5 else 0)
