"""C calls the language bindings are compared with."""
import sys
from xf import *
f_l1qcd = sig("l1qc_d", i, i, i, vp, i, vp, vp, vp, vp, vp)
f_nesta = sig("nesta", i, i, vp, i, vp, vp, d, d, d, i, i)
f_breg = sig("breg", i, i, i, vp, vp, d, d, i, i)
libc = C.CDLL(None)


class Cap:
    """number of lines written to the C-level standard output"""
    def __enter__(s):
        sys.stdout.flush(), libc.fflush(None)
        s.save = os.dup(1)
        s.f = open(A["out"] + ".cap", "w+b")
        os.dup2(s.f.fileno(), 1)
        return s

    def __exit__(s, *a):
        libc.fflush(None)
        os.dup2(s.save, 1), os.close(s.save)
        s.f.seek(0)
        s.lines = s.f.read().count(b"\n")
        s.f.close()


def c_call(fn, r, c, data, idx, o):
    """the corresponding calls of the C library"""
    if fn == "breg":
        gf, gu = G(data), G(r * c)
        st = f_breg(r, c, gu.p, gf.p, o["mu"], o["tol"], o["max_iter"], o.get("max_jac_iter", 1))
        v = gu.np.copy()
        gf.free(), gu.free()
        return st, v, "", ("", st)
    gb, gi = G(data), G(np.array(idx, dtype=np.int32), dtype=np.int32)
    if fn == "l1qc":
        gx = G(np.zeros(r * c))
        od = (d * 7)(o["epsilon"], o["mu"], o["lbtol"], o["newton_tol"], o["l1_tol"], o["cgtol"], o.get("tau", 0.0))
        oi = (i * 7)(o.get("lbiter", 0), o["newton_max_iter"], o["verbose"], o["cgmaxiter"], 0, o.get("warm_start_cg", 0), o["dct_mode"])
        out = (d * 4)()
        st = f_l1qcd(r, c, gx.p, gb.n, gb.p, gi.p, od, oi, out)
        v, s, k = gx.np.copy(), num(out[0]), ("%d %d" % (out[1], out[2]), int(out[3]) | st)
        gx.free()
    else:
        ax = ax_new()
        ax_poison(ax, 0)
        st = s_dcttv(gb.n, r, c, o["alpha_v"], o["alpha_h"], o["dct_mode"], o["bp_mode"], gi.p, ax)
        if st:
            raise SystemExit("reference set-up failed")
        gx, gv = G(np.zeros(ax_int(ax, b"m"))), G(r * c)
        st = f_nesta(gx.n, gx.p, gb.n, gb.p, ax, o["mu"], o["tol"], o["sigma"], o["n_continue"], o["verbose"])
        ax_call(ax, b"Mx", gx.p, gv.p) if o["bp_mode"] == 2 else gv.np.__setitem__(slice(None), gx.np)
        ax_destroy(ax)
        v, s, k = gv.np.copy(), "", ("", st)
        gx.free(), gv.free()
    gb.free(), gi.free()
    return st, v, s, k


def c_refs(fn, r, c, data, idx, o):
    out, vs, ss = [], [], []
    for j in range(1 if fn == "breg" else 6):
        y = data * (1 + 2e-15 * 4 ** j * rng.normal(size=data.shape)) if j else data
        with Cap() as cap:
            st, v, s, k = c_call(fn, r, c, y, idx, o)
        out.append(dict(out=vec(v), scal=s, cnt=k[0], status=k[1], lines=cap.lines))
        vs.append(v), ss.append(float(s or 0))
    # how much rounding-size noise in the data moves the result; a run that it throws
    # elsewhere (a solver cut off far from the solution) has no result to compare with
    return out, (float(max(np.max(np.abs(v - vs[0])) for v in vs)), max(abs(s - ss[0]) for s in ss))


def vague(refs, scale):
    """1: rounding decides the result (FFTW's plans differ from process to process)"""
    if not refs:
        return 0
    ks = [[int(x) for x in r["cnt"].split()] for r in refs[0] if r["cnt"]]
    jump = any(abs(a - b) > 2 + 0.1 * b for k in ks for a, b in zip(k, ks[0]))
    return int(jump or refs[1][0] > 1e-6 * scale or len({r["status"] for r in refs[0]}) > 1)
