"""C19: the Python binding against the C solvers: histories of calls (what = hist)
and calls with failing allocations (what = fault)."""
import gc, importlib.util, sys, tracemalloc
from xf import *
from bind import *
d2 = A["build"] + "/interfaces/python/_l1cPy_module.so"
spec = importlib.util.spec_from_file_location("_l1cPy_module", d2)
M = importlib.util.module_from_spec(spec)
spec.loader.exec_module(M)
PRE.pre_fail.argtypes = [C.c_long, i]
if PRE.pre_target(b"_l1cPy_module") < 1:
    raise SystemExit("binding not found in the process")
BAD = (4, 8, 9, 12)
DIMS = [(4, 5), (5, 3), (3, 4), (6, 3), (4, 4), (3, 3)]
FLAT = DIMS + [(1, 12), (9, 1), (2, 5), (7, 2)]
gc.disable()

KW = {"l1qc": ["epsilon", "mu", "lbtol", "newton_tol", "newton_max_iter", "verbose", "l1_tol", "cgtol", "cgmaxiter", "dct_mode"],
      "nesta": ["alpha_v", "alpha_h", "sigma", "mu", "tol", "n_continue", "verbose", "dct_mode", "bp_mode"],
      "breg": ["mu", "tol", "max_iter", "max_jac_iter"]}
DEF = {"l1qc": dict(epsilon=.01, mu=10.0, lbtol=1e-3, newton_tol=1e-3, newton_max_iter=50, verbose=0, l1_tol=1e-5, cgtol=1e-8, cgmaxiter=200, dct_mode=1),
       "nesta": dict(alpha_v=0.0, alpha_h=0.0, sigma=0.01, mu=1e-5, tol=1e-5, n_continue=5, verbose=5, dct_mode=1, bp_mode=1),
       "breg": dict(mu=10.0, tol=0.001, max_iter=1000, max_jac_iter=1)}
FN = {"l1qc": M.l1qc_dct, "nesta": M.nesta_dctTV, "breg": M.breg_anistropic_TV}


def options(fn, tv):
    if fn == "l1qc":
        o = dict(epsilon=rnd.choice([.05, .2, .7]), mu=rnd.choice([3.0, 10.0, 25.0]), lbtol=rnd.choice([1e-1, 1e-2, 1e-3]), newton_tol=rnd.choice([1e-1, 1e-2, 1e-4]),
                 newton_max_iter=rnd.choice([3, 7, 20]), verbose=rnd.choice([0, 0, 0, 1, 2]), l1_tol=rnd.choice([0.0, 1e-2, 1e-4]), cgtol=rnd.choice([1e-2, 1e-5, 1e-9]),
                 cgmaxiter=rnd.choice([4, 9, 60]), dct_mode=rnd.choice([1, 2]))
    elif fn == "nesta":
        o = dict(alpha_v=rnd.choice([0.0, 0.5, 2.0]) if tv else 0.0, alpha_h=rnd.choice([0.0, 0.75, 1.5]) if tv else 0.0, sigma=rnd.choice([.01, .1, .4]), mu=rnd.choice([1e-1, 1e-2, 1e-3]),
                 tol=rnd.choice([1e-1, 1e-2, 1e-3]), n_continue=rnd.choice([1, 2, 3, 4]), verbose=rnd.choice([0, 1, 2, 7]), dct_mode=rnd.choice([1, 2]), bp_mode=rnd.choice([1, 1, 2]))
        if o["bp_mode"] == 2:
            o["alpha_v"] = o["alpha_h"] = 0.0
    else:
        o = dict(mu=rnd.choice([0.5, 2.0, 8.0]), tol=rnd.choice([1e-1, 1e-2, 1e-4]), max_iter=rnd.choice([1, 4, 30]), max_jac_iter=rnd.choice([1, 2, 5]))
    return o


def layout(a, lay):
    """(object handed over, arrays whose bytes must not change)"""
    if lay == "list":
        x = a.tolist()
        return x, []
    if lay == "fortran":
        x = np.asfortranarray(a)
    elif lay == "strided":
        base = np.full(tuple(2 * s + 1 for s in a.shape), 91, dtype=a.dtype)
        x = base[tuple(slice(1, None, 2) for _ in a.shape)]
        x[...] = a
        return x, [x, base]
    elif lay == "reversed":
        x = np.ascontiguousarray(a[::-1])[::-1]
    elif lay in ("float32", "int16", "uint8"):
        x = a.astype(lay)
    elif lay == "int":
        x = a.astype(rnd.choice(["int64", "int32", "int16"]))
    elif lay == "swapped":
        x = a.astype(a.dtype.newbyteorder(">"))
    elif lay == "unaligned":
        off = rnd.choice([8, 16, 24, 40, 4, 1])
        raw = np.zeros(a.nbytes + 128, dtype=np.uint8)
        sh = (-raw.ctypes.data) % 64 + off
        x = np.frombuffer(raw.data, dtype=a.dtype, count=a.size, offset=sh).reshape(a.shape)
        x[...] = a
    else:
        x = a.copy()
        if lay == "readonly":
            x.flags.writeable = False
    return x, [x]


def result(fn, r):
    """(well formed, shape, image, scalars, counters, surplus references)"""
    ok, arr, s, k, sur = True, r, "", ("", 0), 0
    if fn != "breg":
        ok = type(r) is tuple and len(r) == 2
        if not ok:
            return 0, [], None, "", ("", -1), 0
        arr = r[0]
        if fn == "l1qc":
            q = r[1]
            ok = type(q) is dict and all(w in q for w in ("l1", "total_newton_iter", "total_cg_iter", "status"))
            if ok:
                s, k = num(q["l1"]), ("%d %d" % (q["total_newton_iter"], q["total_cg_iter"]), q["status"])
            del q
            sur += sys.getrefcount(r[1]) - 2
        else:
            ok = isinstance(r[1], int)
            k = ("", r[1] if ok else -1)
    ok = ok and type(arr) is np.ndarray and arr.dtype == np.float64 and arr.ndim == 2 and arr.flags.owndata
    sh = [int(q) for q in arr.shape] if type(arr) is np.ndarray else []
    img = np.array(arr, dtype=float) if ok else None
    del arr
    # references: ours (r), the caller's frames hold none of the members
    sur += sys.getrefcount(r) - 4        # caller's variable, our parameter, getrefcount's and the call's argument
    if fn != "breg":
        sur += sys.getrefcount(r[0]) - 2
    return b01(ok), sh, img, s, k, sur


def base_surplus():
    """the constant subtracted above, measured on an object made here"""
    x = np.zeros((1, 1))
    return result("breg", x)[5]


leaky = []
SUR0 = base_surplus()


def build(q):
    """arguments of one class -> (args, kw, description, reference inputs, keep)"""
    fn, fault = q["fn"], q["fault"]
    intd = q["lay"] == "int"
    tv = 0
    if fn == "breg":
        r, c = rnd.choice(DIMS + [(7, 4), (3, 9), (8, 8)])
        tv = 1
    else:
        tv = fn == "nesta" and rnd.random() < .6
        r, c = rnd.choice(DIMS if tv else FLAT)
    o = options(fn, tv)
    if fault == "tv-thin":
        r, c = rnd.choice([(2, 5), (5, 2), (1, 7), (8, 1)])
        o["alpha_v"], o["alpha_h"] = rnd.choice([(1.0, 0.0), (0.0, 1.0), (1.0, 1.0)])
        o["bp_mode"] = rnd.choice([1, 2])
    if fault == "synth-tv":
        r, c = rnd.choice(DIMS)
        o.update(alpha_v=0.5, alpha_h=1.0, bp_mode=2)
    if fault == "weight-neg":
        r, c = rnd.choice(DIMS)
        o[rnd.choice(["alpha_v", "alpha_h"])] = -0.5
    if fault == "thin-r":
        r, c = rnd.choice([0, 1, 2]), 5
    if fault == "thin-c":
        r, c = 4, rnd.choice([0, 1, 2])
    mt = r * c
    e = dict(fn=fn, parse=1, bok=1, iok=1, bnd=1, ind=1, nb=0, ni=0, mrow=r, mcol=c, dct=1, bp=1, imin=0, imax=0, av=0, ah=0, bad=0, free=0)
    img = np.round(8 * (np.add.outer(np.arange(r) * .5, 2 * np.cos(np.arange(c) * .9 + 1)).ravel() + rng.normal(size=mt) * .4)) / 8 + 3
    if intd:
        img = np.round(img)
    keep, pos = [], []
    idx = []
    if fn == "breg":
        D, k0 = layout(img.reshape(r, c), q["lay"])
        keep += k0
        e["bnd"] = 2
        data = img
        if fault == "data-1d":
            D, e["bnd"] = img.copy(), 1
        if fault == "data-3d":
            D, e["bnd"] = img.reshape(r, c, 1).copy(), 3
        if q["lay"] == "list" and mt == 0:
            D = np.zeros((r, c))
        if fault == "data-type":
            D, e["bok"] = rnd.choice([[["a"] * 4] * 4, object(), np.full((4, 4), "x"), None]), 0
        if fault == "data-complex":
            D, e["bok"] = img.reshape(r, c) + 1j, 0
        pos = [D]
    else:
        n = rnd.choice([mt, max(1, mt // 2), max(1, mt - 1), max(1, (2 * mt) // 3)])
        idx = [int(k) for k in rng.permutation(mt)[:n]]
        if rnd.random() < .6:
            idx.sort()
        if fault == "infeasible":
            o["epsilon"], e["bad"] = -1.0, 1
        if fault in ("index-neg", "index-over", "index-over-mid"):
            idx[len(idx) // 2 if fault.endswith("mid") else rnd.randrange(len(idx))] = {"index-neg": rnd.choice([-1, -7])}.get(fault, mt + rnd.choice([0, 1, 40]))
        if fault == "too-long":
            idx = [k % mt for k in range(mt + rnd.choice([1, 5]))]
        if fault == "empty":
            idx = []
        data = img[np.clip(np.array(idx, dtype=int), 0, mt - 1)] if idx else np.zeros(0)
        b, I = data, np.array(idx, dtype=np.int32)
        if fault == "length":
            if rnd.random() < .5 and len(idx) > 1:
                I = I[:-1]
            else:
                b = np.append(b, 1.0) if len(idx) < mt and rnd.random() < .5 else b[:-1]
        if fault == "index64":
            I, e["free"] = I.astype(np.int64), 1
        e["nb"], e["ni"] = int(b.size), int(I.size)
        if I.size:
            e["imin"], e["imax"] = int(I.min()), int(I.max())
        D, k0 = layout(b, q["lay"])
        I, k1 = layout(I, q["ilay"])
        keep += k0 + k1
        if fault == "data-2d":
            D, e["bnd"] = b.reshape(rnd.choice([(1, -1), (-1, 1)])).copy(), 2
        if fault == "index-2d":
            I, e["ind"] = np.array(idx, dtype=np.int32).reshape(rnd.choice([(1, -1), (-1, 1)])), 2
        if fault == "data-0d":
            D, e["bnd"] = rnd.choice([3.0, np.array(2.5), 4]), 0
        if fault == "data-type":
            D, e["bok"] = rnd.choice([["a"] * len(idx), object(), np.array(["x"] * len(idx)), {}, None]), 0
        if fault == "data-complex":
            D, e["bok"] = b + 1j, 0
        if fault == "index-type":
            I, e["iok"] = rnd.choice([np.array(idx, dtype=float), ["a"] * len(idx), object(), None, np.array(idx) + 0j]), 0
        if fault in ("dct0", "dct3", "dct-neg"):
            o["dct_mode"] = {"dct0": 0, "dct3": 3, "dct-neg": -1}[fault]
        if fault in ("bp0", "bp3"):
            o["bp_mode"] = {"bp0": 0, "bp3": 3}[fault]
        if fault == "dim0":
            e["mrow"], e["mcol"] = rnd.choice([(0, c), (r, 0), (0, 0)])
        if fault == "dims-neg":
            e["mrow"], e["mcol"] = -r, -c
        if fault == "dims-wrap":
            e["mrow"], e["mcol"] = rnd.choice([(65537, 65537), (65536, 65536), (2 ** 31 - 1, 2 ** 31 - 1)])
        pos = [e["mrow"], e["mcol"], D, I]
        e["dct"], e["bp"] = o["dct_mode"], o.get("bp_mode", 1)
        e["av"], e["ah"] = (int(np.sign(o.get(w, 0.0))) for w in ("alpha_v", "alpha_h"))
        if fault == "synth-tv":
            e["free"] = 1
    if fn == "breg":
        e["mrow"], e["mcol"] = r, c
    # which keywords are given, and how
    names = KW[fn]
    if q["style"] == "pos":
        cut = rnd.randint(1, len(names))
        pk, kk = names[:cut], []
    elif q["style"] == "mix":
        cut = rnd.randint(0, len(names) - 1)
        pk, kk = names[:cut], [w for w in names[cut:] if rnd.random() < .6]
    else:
        pk, kk = [], [w for w in names if rnd.random() < .8]
    must = {"dct0": "dct_mode", "dct3": "dct_mode", "dct-neg": "dct_mode", "bp0": "bp_mode", "bp3": "bp_mode", "infeasible": "epsilon"}.get(fault)
    need = [must] if must else []
    if fn == "nesta":     # keep the default mu, tol (very slow on purpose) and TV weights explicit
        need += ["alpha_v", "alpha_h", "mu", "tol", "bp_mode", "dct_mode"]
    if fn == "breg" and "max_iter" not in pk:
        need += ["max_iter"]
    kk = list(dict.fromkeys([w for w in kk + need if w not in pk]))
    rnd.shuffle(kk)
    eff = dict(DEF[fn])
    for w in pk + kk:
        eff[w] = o[w]
    args, kw = pos + [o[w] for w in pk], {w: o[w] for w in kk}
    if fault == "few":
        args, kw, e["parse"] = pos[:-1], {}, 0
    if fault == "many":
        args, kw, e["parse"] = pos + [o[w] for w in names] + [1], {}, 0
    if fault == "unknown":
        kw["bogus"], e["parse"] = 1, 0
    if fault == "twice":
        args, kw, e["parse"] = pos + [o[names[0]]], {names[0]: o[names[0]]}, 0
    if fault == "scalar-type":
        e["parse"] = 0
        if fn == "breg" or rnd.random() < .5:
            kw[rnd.choice([w for w in names if w not in pk])] = rnd.choice(["1", None, [1.0]])
        else:
            args[rnd.choice([0, 1])] = rnd.choice(["4", 4.0, None])
    return args, kw, e, (fn, r, c, data, idx, eff), keep


def state():
    return [PRE.pre_live(k) for k in (0, 1)]


def once(fn, args, kw):
    """one call; returns (raised, exception, result description)"""
    try:
        r = FN[fn](*args, **kw)
    except BaseException as x:
        if isinstance(x, (KeyboardInterrupt, SystemExit)):
            raise
        return 1, type(x).__name__, None
    z = result(fn, r)
    return 0, "", z


def grow_of(fn, args, kw, n=16):
    """bytes every single call adds: the least growth of up to n calls"""
    fill = [(lambda *a, **k: (a, k, dict(k)))(*args, **kw) for _ in range(120)]
    del fill                              # the interpreter's free lists are full now
    least = 1 << 40
    for _ in range(n):
        m0 = tracemalloc.get_traced_memory()[0]
        try:
            FN[fn](*args, **kw)
        except Exception:
            pass
        least = min(least, tracemalloc.get_traced_memory()[0] - m0)
        if least <= 0:
            break
    return least


def call(q, k=-1, mode=0, nomem=None, refs=None, built=None):
    args, kw, e, ref, keep = built or build(q)
    fn = q["fn"]
    note("%s %s lay=%s/%s style=%s fail=%d,%d,%s dims=%dx%d opts=%s" % (fn, q["fault"], q["lay"], q["ilay"], q["style"], k, mode, nomem, e["mrow"], e["mcol"], ref[5]))
    objs = [a for a in args if not isinstance(a, (int, float, str, type(None)))] + [a.base for a in keep if a.base is not None]
    snap = [a.tobytes() for a in keep]
    lists = [(a, repr(a)) for a in args if isinstance(a, list)]
    rc0 = [sys.getrefcount(a) for a in objs]
    PRE.pre_start()
    s0, n0 = state(), PRE.pre_nev()
    with Cap() as cap:
        PRE.pre_fail(k, mode)
        if nomem is not None:
            import _testcapi
            f, r = FN[fn], None
            raised, exc = 0, ""
            try:
                _testcapi.set_nomemory(nomem, nomem + 1)
                r = f(*args, **kw)
            except BaseException:
                raised = 1
            finally:
                _testcapi.remove_mem_hooks()
            z = result(fn, r) if not raised else None
            if z:
                z = z[:5] + (SUR0,)
            r = None
        else:
            raised, exc, z = once(fn, args, kw)
        nreq = PRE.pre_nreq()
        PRE.pre_fail(-1, 0)
    s1 = state()
    evs = [PRE.pre_ev(t, 0) for t in range(n0, PRE.pre_nev())]
    dmg = PRE.pre_damaged()
    PRE.pre_stop()
    rc1 = [sys.getrefcount(a) for a in objs]
    hit = sum(1 for t in evs if t in (3, 7))
    inj = b01(hit or nomem is not None)
    grow = 0
    if not inj and k < 0 and q["fault"] != "dims-wrap":
        PRE.pre_start()
        with Cap():
            grow = grow_of(fn, args, kw)
            if grow > 0 and not leaky:    # free lists hold at most some 100 objects
                grow = grow_of(fn, args, kw, 150)
                leaky.extend([1] if grow > 0 else [])
        PRE.pre_stop()
    form, sh, img, scal, cnt, sur = z if z else (0, [], None, "", ("", -1), SUR0)
    if not raised and refs is None and e["free"] == 0 and img is not None and q["fault"] == "none":
        refs, spread = c_refs(*ref)
        refs = (refs, spread)
    scale = float(np.max(np.abs(ref[3]))) if len(ref[3]) else 1.0
    emit(e="Py", **e, fault=q["fault"], lay=q["lay"], ilay=q["ilay"], style=q["style"], raised=raised, exc=exc, form=form, shape=sh, out=vec(img) if img is not None else "", scal=scal, cnt=cnt[0], status=cnt[1],
         lines=cap.lines, refs=refs[0] if refs else [], vague=vague(refs, scale), rtol="1e-6", atol=num(max(1e-7 * scale, 20 * refs[1][0] if refs else 0)), satol=num(max(1e-12, 20 * refs[1][1] if refs else 0)), same=b01(all(a.tobytes() == t for a, t in zip(keep, snap)) and all(repr(a) == t for a, t in lists)),
         rcin=sum(b - a for a, b in zip(rc0, rc1)), rcout=sur - SUR0, grow=grow, h0=s0[0], p0=s0[1], h1=s1[0], p1=s1[1], dbl=sum(1 for t in evs if t in BAD), dmg=dmg,
         inj=inj, hit=b01(hit), k=k, mode=mode, nomem=-1 if nomem is None else nomem, opts=repr(ref[5]))
    return raised, nreq, refs


def end():
    PRE.pre_start(), PRE.pre_reset()
    PRE.pre_stop()


if A["what"] == "hist":
    tracemalloc.start()
    for h in A["hist"]:
        emit(e="Case", h="; ".join("%s %s %s/%s %s" % (q["fn"], q["fault"], q["lay"], q["ilay"], q["style"]) for q in h))
        for q in h:
            call(q)
        end()
else:
    for t in range(A["n"]):
        for fn in ("l1qc", "nesta", "breg"):
            q = dict(fn=fn, fault="none", lay=rnd.choice(["c", "float32", "strided", "list"]), ilay=rnd.choice(["c", "int16", "list"]), style=rnd.choice(["kw", "mix"]))
            bl = build(q)
            emit(e="Case", h="faults in %s" % fn)
            _, nreq, refs = call(q, built=bl)
            end()
            ks = list(range(nreq))
            for mode in (0, 1):
                for k in ks if THOROUGH else sorted(rnd.sample(ks, min(len(ks), 18))):
                    call(q, k=k, mode=mode, built=bl, refs=refs)
                    if rnd.random() < .3:
                        call(q, built=bl, refs=refs)
                    end()
            miss = 0
            for k in range(60):
                raised = call(q, nomem=k, built=bl, refs=refs)[0]
                end()
                miss = 0 if raised else miss + 1
                if miss >= 6:
                    break
