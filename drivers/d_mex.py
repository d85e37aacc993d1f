"""C20: the mex functions, called from Octave, against the C solvers: histories of
calls (what = hist) and calls with failing allocations (what = fault)."""
import subprocess
from xf import *
from bind import *
MEX = {"l1qc": "l1qc_dct", "nesta": "nesta_dctTV", "breg": "breg_anistropic_TV"}
TVD = [(4, 5), (5, 3), (3, 4), (6, 3), (4, 4), (3, 3)]
FLAT = TVD + [(1, 12), (9, 1), (2, 5), (7, 2)]
FLD = {"l1qc": ["epsilon", "mu", "tau", "newton_tol", "lbtol", "l1_tol", "cgtol", "warm_start_cg", "verbose", "newton_max_iter", "cgmaxiter", "lbiter", "dct_mode"],
       "nesta": ["sigma", "verbose", "mu", "tol", "n_continue", "alpha_v", "alpha_h", "dct_mode", "bp_mode"]}
DEF = {"l1qc": dict(epsilon=.1, mu=10.0, lbtol=1e-3, tau=0.0, lbiter=0, newton_tol=1e-3, newton_max_iter=50, verbose=2, l1_tol=1e-5, cgtol=1e-8, cgmaxiter=200, warm_start_cg=0, dct_mode=1),
       "nesta": dict(sigma=.01, mu=1e-5, tol=1e-3, alpha_v=0.0, alpha_h=0.0, verbose=5, n_continue=5, bp_mode=1, dct_mode=1)}


turns = {}


def turn(key, xs):
    """the next of xs, so that all get their turn"""
    turns[key] = turns.get(key, SUB) + 1
    return xs[turns[key] % len(xs)]


def options(fn, tv):
    if fn == "l1qc":
        return dict(epsilon=rnd.choice([.05, .2, .7]), mu=rnd.choice([3.0, 10.0, 25.0]), lbtol=rnd.choice([1e-1, 1e-2, 1e-3]), newton_tol=rnd.choice([1e-1, 1e-2, 1e-4]),
                    newton_max_iter=rnd.choice([3, 7, 20]), verbose=rnd.choice([0, 0, 0, 1, 2]), l1_tol=rnd.choice([0.0, 1e-2, 1e-4]), cgtol=rnd.choice([1e-2, 1e-5, 1e-9]),
                    cgmaxiter=rnd.choice([4, 9, 60]), dct_mode=rnd.choice([1, 2]), tau=rnd.choice([0.0, 0.0, 2.0, 11.0]), lbiter=rnd.choice([0, 0, 1, 2, 4]), warm_start_cg=rnd.choice([0, 0, 1, 2]))
    if fn == "nesta":
        o = dict(alpha_v=rnd.choice([0.0, 0.5, 2.0]) if tv else 0.0, alpha_h=rnd.choice([0.0, 0.75, 1.5]) if tv else 0.0, sigma=rnd.choice([.01, .1, .4]), mu=rnd.choice([1e-1, 1e-2, 1e-3]),
                 tol=rnd.choice([1e-1, 1e-2, 1e-3]), n_continue=rnd.choice([1, 2, 3, 4]), verbose=rnd.choice([0, 1, 2, 7]), dct_mode=rnd.choice([1, 2]), bp_mode=rnd.choice([1, 1, 2]))
        if o["bp_mode"] == 2:
            o["alpha_v"] = o["alpha_h"] = 0.0
        return o
    return dict(mu=rnd.choice([0.5, 2.0, 8.0]), tol=rnd.choice([1e-1, 1e-2, 1e-4]), max_iter=rnd.choice([1, 4, 30]))


def lit(a):
    """Octave literal of a 2-d array (or scalar)"""
    a = np.asarray(a, dtype=float)
    if a.ndim == 0:
        return "%.17g" % a
    if a.size == 0:
        return "zeros(%d,%d)" % a.shape
    return "[" + ";".join(",".join("%.17g" % x for x in row) for row in a) + "]"


def vecl(v, orient):
    v = np.asarray(v, dtype=float)
    if orient == "range" and v.size > 1 and np.all(np.diff(v) == 1):
        return "%d:%d" % (v[0], v[-1])
    return lit(v.reshape(-1, 1) if orient == "column" else v.reshape(1, -1))


def optlit(fn, o, style, fault):
    """(literal, effective options)"""
    val = lambda k: ("'%s'" % {1: "analysis", 2: "synthesis"}.get(o[k], o[k])) if k == "bp_mode" else "%.17g" % o[k]
    names = list(FLD[fn])
    vals = {k: val(k) for k in names}
    if fault == "bp-bad":
        vals["bp_mode"] = "'%s'" % turn("bp", ["Analysis", "synth", "", "analysis2", "synthesisx", "synthesis and more", "analysi", "ANALYSIS", "analysis ", "synthesi"])
    if fault == "bp-type":
        vals["bp_mode"] = rnd.choice(["2", "[1 2 3]", "{'analysis'}", "true"])
    if fault == "field-type":
        vals[turn("ft", [k for k in names if k != "bp_mode"])] = rnd.choice(["'a'", "[1 2]", "int32(3)", "single(2)", "{1}", "[]", "struct('a',1)", "true"])
    eff = dict(o)
    if style == "builder":
        give = [k for k in names if rnd.random() < .7 or (fn, k) in (("nesta", "mu"), ("nesta", "bp_mode"), ("nesta", "alpha_v"), ("nesta", "alpha_h"))]
        rnd.shuffle(give)
        eff = dict(DEF[fn])
        eff.update({k: o[k] for k in give})
        return ("l1qc_dct_opts" if fn == "l1qc" else "nesta_opts") + "(" + ",".join("'%s',%s" % (k, vals[k]) for k in give) + ")", eff
    if style in ("shuffled", "extra"):
        rnd.shuffle(names)
    if fault == "missing-field":
        names.remove(turn("mf", [k for k in names if k != "dct_mode"]))
    if style == "extra":
        names.insert(rnd.randint(0, len(names)), "bogus")
        vals["bogus"] = "[1 2 3]"
    s = "struct(" + ",".join("'%s',%s" % (k, vals[k] if not vals[k].startswith("{") else "{%s}" % vals[k]) for k in names) + ")"
    if fault == "struct-array":
        s = "repmat(%s,%s)" % (s, rnd.choice(["1,2", "3,1", "0,0"]))
    if fault == "not-struct":
        s = rnd.choice(["1", "'a'", "{1}", "[1 2 3]"])
    return s, eff


def build(q):
    """one call: literals of the arguments, description, reference inputs"""
    fn, fault = q["fn"], q["fault"]
    tv = fn == "nesta" and rnd.random() < .6
    r, c = rnd.choice(TVD if tv else FLAT)
    o = options(fn, tv)
    e = dict(fn=fn, nin=5, sok=1, bok=1, iok=1, bvec=1, ivec=1, stok=1, fok=1, nb=0, ni=0, mrow=r, mcol=c, ilow=0, ihigh=0, av=0, ah=0, bad=0, bnd=2, nout=q["nout"])
    arr = lambda x: rnd.choice(["single(%s)" % x, "int32(%s)" % x, "'abcd'", "{%s}" % x, "(%s)>1" % x, "struct('a',1)", "uint8(%s)" % x])
    if fn == "breg":
        r, c = {"tall": [(5, 3), (7, 4), (9, 3)], "wide": [(3, 5), (4, 7), (3, 8)], "square": [(3, 3), (4, 4), (6, 6)]}.get(q["ob"], [(4, 6), (5, 4)])[rnd.randrange(2)]
        if fault == "thin-r":
            r = rnd.choice([1, 2])
        if fault == "thin-c":
            c = rnd.choice([1, 2])
        e["mrow"], e["mcol"], e["nin"] = r, c, 4
        img = np.round(8 * (np.add.outer(np.arange(r) * .5, 2 * np.cos(np.arange(c) * .9 + 1)) + rng.normal(size=(r, c)) * .4)) / 8 + 3
        L = [lit(img), lit(o["mu"]), lit(o["tol"]), lit(o["max_iter"])]
        if fault == "few":
            L, e["nin"] = L[:rnd.choice([1, 2, 3])], 3
        if fault == "scalar-type":
            k = rnd.choice([1, 2, 3])
            L[k], e["sok"] = rnd.choice(["'a'", "[1 2]", "int32(3)", "single(2)", "{1}", "[]", "struct('a',1)", "true"]), 0
        if fault == "data-type":
            L[0], e["bok"] = arr(L[0]), 0
        if fault == "data-sparse":
            L[0], e["bok"] = "sparse(%s)" % L[0], 0
        if fault == "data-complex":
            L[0], e["bok"] = "(%s)*(1+2i)" % L[0], 0
        if fault == "data-3d":
            L[0], e["bnd"] = "repmat(%s,[1 1 2])" % L[0], 3
        if fault == "data-empty":
            L[0] = rnd.choice(["[]", "zeros(0,4)", "zeros(5,0)"])
            e["mrow"], e["mcol"] = 0, 0
        if fault == "data-scalar":
            L[0] = "4.5"
            e["mrow"], e["mcol"] = 1, 1
        return L, e, (fn, r, c, img, None, o)
    mt = r * c
    if fault == "tv-thin":
        r, c = rnd.choice([(2, 5), (5, 2), (1, 7), (8, 1)])
        o["alpha_v"], o["alpha_h"] = rnd.choice([(1.0, 0.0), (0.0, 1.0), (1.0, 1.0)])
    if fault == "weight-neg":
        r, c = rnd.choice(TVD)
        o[rnd.choice(["alpha_v", "alpha_h"])] = -0.5
    if fault == "infeasible":
        o["epsilon"], e["bad"] = -1.0, 1
    mt = r * c
    e["mrow"], e["mcol"] = r, c
    n = rnd.choice([mt - 1, max(2, mt // 2), max(2, (2 * mt) // 3), 2])
    if q["oi"] == "range":
        s0 = rnd.randint(0, mt - n)
        idx = list(range(s0, s0 + n))
    else:
        idx = [int(k) for k in rng.permutation(mt)[:n]]
        if rnd.random() < .6:
            idx.sort()
    if fault in ("data-2d", "index-2d"):
        n = rnd.choice([k for k in (4, 6, 8) if k < mt])
        idx = [int(k) for k in rng.permutation(mt)[:n]]
    if fault == "too-long":
        idx = [k % mt for k in range(mt + rnd.choice([0, 1, 5]))]
    img = np.round(8 * (np.add.outer(np.arange(r) * .5, 2 * np.cos(np.arange(c) * .9 + 1)).ravel() + rng.normal(size=mt) * .4)) / 8 + 3
    data = img[np.array(idx, dtype=int)]
    pos = [float(k + 1) for k in idx]
    where = lambda: rnd.choice([0, len(pos) - 1, len(pos) // 2])
    if fault == "index-zero":
        pos[where()], e["ilow"] = 0.0, 1
    if fault == "index-neg":
        pos[where()], e["ilow"] = rnd.choice([-1.0, -5.0, -1e9]), 1
    if fault == "index-nan":
        pos[where()], e["ilow"] = float("nan"), 1
    if fault in ("index-over", "index-over-mid"):
        pos[len(pos) // 2 if fault.endswith("mid") else rnd.choice([0, len(pos) - 1])], e["ihigh"] = mt + rnd.choice([1, 2, 40]), 1
    if fault == "index-huge":
        pos[where()], e["ihigh"] = rnd.choice([2.0 ** 31, 4e9, 2.0 ** 32 + 1, 2.0 ** 32 + 3, 1e300, float("inf")]), 1
    b = data
    if fault == "length":
        if rnd.random() < .5 and len(pos) > 2:
            pos = pos[:-1]
        else:
            b = np.append(b, 1.0) if len(pos) + 1 < mt and rnd.random() < .5 else b[:-1] if b.size > 2 else np.append(b, [1.0])
    e["nb"], e["ni"] = int(b.size), len(pos)
    B, I = vecl(b, q["ob"]), vecl(pos, q["oi"])
    if fault == "data-type":
        B, e["bok"] = arr(B), 0
    if fault == "data-sparse":
        B, e["bok"] = "sparse(%s)" % B, 0
    if fault == "data-complex":
        B, e["bok"] = "(%s)*(1+2i)" % B, 0
    if fault == "index-type":
        I, e["iok"] = arr(I), 0
    if fault == "index-sparse":
        I, e["iok"] = "sparse(%s)" % I, 0
    two = rnd.choice(["repmat((%s)(:),1,2)", "repmat((%s)(:)',3,1)", "reshape(%s,2,[])", "reshape(%s,[],2)", "reshape(%s,2,[])"])
    if fault == "data-2d":
        B, e["bvec"] = two % B, 0
        if rnd.random() < .3:      # both are matrices of one shape
            I, e["ivec"] = two % I, 0
    if fault == "index-2d":
        I, e["ivec"] = two % I, 0
    if fault == "data-3d":
        B, e["bvec"] = rnd.choice(["repmat(%s,[1 1 2])" % B, "reshape(%s,[1 1 %d])" % (B, b.size)]), 0
    if fault == "data-empty":
        B, e["bvec"] = rnd.choice(["[]", "zeros(0,1)", "zeros(1,0)"]), 0
    S, eff = optlit(fn, o, q["opts"], fault)
    e["stok"] = b01(fault not in ("not-struct", "struct-array"))
    e["fok"] = b01(fault not in ("missing-field", "field-type", "bp-bad", "bp-type"))
    if fault == "dim0":
        e["mrow"], e["mcol"] = rnd.choice([(0, c), (r, 0), (0, 0)])
    if fault == "dims-neg":
        e["mrow"], e["mcol"] = rnd.choice([(-r, -c), (-r, c), (r, -c)])
    if fault == "dims-wrap":
        e["mrow"], e["mcol"] = rnd.choice([(65537, 65537), (65536, 65536), (2 ** 31 - 1, 2 ** 31 - 1)])
    L = [lit(e["mrow"]), lit(e["mcol"]), B, I, S]
    if fault == "scalar-type":
        L[rnd.choice([0, 1])], e["sok"] = rnd.choice(["'a'", "[4 4]", "int32(4)", "single(4)", "{4}", "[]", "struct('a',1)", "true"]), 0
    if fault == "few":
        L, e["nin"] = L[:rnd.choice([1, 2, 3, 4])], 4
    e["av"], e["ah"] = (int(np.sign(eff.get(w, 0.0))) for w in ("alpha_v", "alpha_h"))
    return L, e, (fn, r, c, data, idx, eff)


def refs_of(ref):
    fn, r, c, data, idx, o = ref
    if fn != "breg":
        return c_refs(*ref)
    out = []
    for rr, cc, x, back in ((c, r, data.T.ravel(), lambda v: v), (r, c, data.ravel(), lambda v: v.reshape(r, c).T.ravel())):
        # column-major order of the caller's image in both cases
        with Cap() as cap:
            st, v, s, k = c_call(fn, rr, cc, x, None, o)
        out.append(dict(out=vec(back(v)), scal="", cnt="", status=st, lines=cap.lines))
    return out, (0.0, 0.0)


HEAD = """1;
function put(fid, k, raised, s, o1, o2, same, m0, m1)
  l1 = 0; st = -1; n1 = 0; n2 = 0; f2 = 0;
  if isstruct(o2)
    f2 = 2;
    if isfield(o2, 'l1') && isfield(o2, 'total_newton_iter') && isfield(o2, 'total_cg_iter') && isfield(o2, 'status')
      l1 = o2.l1; n1 = o2.total_newton_iter; n2 = o2.total_cg_iter; st = o2.status;
    end
  elseif isnumeric(o2) && numel(o2) == 1
    f2 = 1; st = o2;
  end
  d = isa(o1, 'double') && isreal(o1) && ~issparse(o1);
  fprintf(fid, '%d %d %d %d %d %d %d %d %.17g %d %d %d |', k, raised, sum(s == 10), same, d, ndims(o1), rows(o1), columns(o1), l1, n1, n2, st);
  fprintf(fid, ' %d', m0); fprintf(fid, ' %d', m1); fprintf(fid, ' |');
  if d && ~raised
    fprintf(fid, ' %.17g', o1);
  end
  fprintf(fid, '\\n'); fflush(fid);
end
function m = warm(p)
  addpath(p{1}); addpath(p{2});
  try, l1qc_dct(); catch, end
  try, nesta_dctTV(); catch, end
  try, breg_anistropic_TV(); catch, end
  m = premon('init');
  premon('reset');
end
if warm({'%s', '%s'}) < 4, exit(7); end
"""


def script(calls, res):
    """calls: (fn, literals, nout, k, mode, fail)"""
    t = [HEAD.replace("{'%s', '%s'}", "{'%s', '%s'}" % (os.path.join(A["build"], "interfaces", "mex"), A["mexdir"]))]
    t.append("fid = fopen('%s', 'a');" % res)
    for k, (fn, L, nout, fail, mode, reset) in calls:
        cell = "{" + ",".join("{%s}" % x if x.startswith("{") else x for x in L) + "}"
        t.append("a = %s; w = %s; z = a; o1 = []; o2 = []; s = ''; raised = 0;" % (cell, cell))
        t.append("m0 = premon('begin', %d, %d);" % (fail, mode))
        t.append("try, s = evalc('%s = %s(a{:});'); catch e, raised = 1; end" % ("[o1, o2]" if nout == 2 else "o1", MEX[fn]))
        t.append("m1 = premon('end');")
        t.append("put(fid, %d, raised, s, o1, o2, isequaln(a, w) && isequaln(z, w), m0, m1);" % k)
        if reset:
            t.append("premon('reset');")
    return "\n".join(t) + "\n"


def run(calls, tag):
    """runs the calls in one Octave process -> {k: fields}, exit"""
    res, scr = A["out"] + "." + tag + ".res", A["out"] + "." + tag + ".m"
    open(scr, "w").write(script(list(enumerate(calls)), res))
    open(res, "w").close()
    env = dict(os.environ, LD_PRELOAD=A["pre"])
    try:
        p = subprocess.run(["octave-cli", "--norc", "--no-history", "--no-gui", scr], env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=A["limit"])
        rc, txt = p.returncode, p.stdout.decode(errors="replace")[-400:]
    except subprocess.TimeoutExpired:
        rc, txt = -9, "timeout"
    got = {}
    for ln in open(res):
        f = ln.rstrip("\n").split("|")
        if len(f) != 3:
            continue
        h = f[0].split()
        m = [int(x) for x in f[1].split()]
        got[int(h[0])] = dict(raised=int(h[1]), lines=int(h[2]), same=int(h[3]), dbl=int(h[4]), nd=int(h[5]), shape=[int(h[6]), int(h[7])], scal=h[8], cnt="%s %s" % (h[9], h[10]), status=int(float(h[11])), m=m, out=" ".join(x.lower() for x in f[2].split()))
    os.unlink(scr), os.unlink(res)
    return got, rc, txt


def record(q, bl, g, fail, mode, refs):
    L, e, ref = bl
    fn = q["fn"]
    e = dict(e)
    raised = g["raised"]
    if refs and any(x["status"] for x in refs[0]):
        e["bad"] = 1
    scale = float(np.max(np.abs(ref[3]))) if ref[3] is not None and np.size(ref[3]) else 1.0
    emit(e="Mex", **e, fault=q["fault"], raised=raised, dbl=g["dbl"], nd=g["nd"], shape=g["shape"], out=g["out"], scal=g["scal"] if fn == "l1qc" and e["nout"] == 2 else "", cnt=g["cnt"] if fn == "l1qc" and e["nout"] == 2 else "",
         status=g["status"], lines=g["lines"], quiet=b01(ref[5].get("verbose", 0) == 0), refs=refs[0] if refs else [], vague=vague(refs, scale), atol=num(max(1e-7 * scale, 20 * refs[1][0] if refs else 0)), satol=num(max(1e-12, 20 * refs[1][1] if refs else 0)), rtol="1e-6",
         same=g["same"], hit=b01(g["m"][3]), h0=g["m"][0], p0=g["m"][1], h1=g["m"][4], p1=g["m"][5], rel=g["m"][6], dmg=g["m"][7], k=fail, mode=mode, opts=repr(ref[5]), args=" ".join(L)[:300])


def finish(rc, txt, during):
    if rc:
        if rc < 0 or rc > 128 or "fatal" in txt or "signal" in txt or "abort" in txt:
            emit(e="Crash", rc=str(rc), during=during, log=txt)
        else:
            raise SystemExit("octave: %d %s" % (rc, txt))


if A["what"] == "hist":
    seq, calls = [], []
    for h in A["hist"]:
        for j, q in enumerate(h):
            bl = build(q)
            seq.append((h, j, q, bl))
            calls.append((q["fn"], bl[0], q["nout"], -1, 0, j + 1 == len(h)))
    got, rc, txt = run(calls, "h")
    for k, (h, j, q, bl) in enumerate(seq):
        if j == 0:
            emit(e="Case", h="; ".join("%s %s %s/%s %s" % (x["fn"], x["fault"], x["ob"], x["oi"], x["opts"]) for x in h))
        if k not in got:
            finish(rc or 1, txt if rc else "octave stopped", "%s %s %s" % (q["fn"], q["fault"], " ".join(bl[0])[:300]))
            break
        note("reference %s %s" % (q["fn"], bl[2][5]))
        record(q, bl, got[k], -1, 0, refs_of(bl[2]) if q["fault"] == "none" else None)
    else:
        finish(rc, txt, "exit")
else:
    for t in range(A["n"]):
        for fn in ("l1qc", "nesta", "breg"):
            q = dict(fn=fn, fault="none", ob="tall" if fn == "breg" else "column", oi="row", opts="struct", nout=1 if fn == "breg" else 2)
            if fn == "l1qc" and t % 2:
                q["nout"] = 1
            bl = build(q)
            got, rc, txt = run([(fn, bl[0], q["nout"], -1, 0, True)], "f")
            finish(rc, txt, "%s %s" % (fn, bl[0]))
            refs = refs_of(bl[2])
            if 0 not in got or rc:
                break
            nreq = got[0]["m"][2]
            todo = [(k, mode) for mode in (0, 1) for k in range(nreq)]
            got, rc, txt = run([(fn, bl[0], q["nout"], k, mode, True) for k, mode in todo], "f")
            emit(e="Case", h="faults in %s" % fn)
            for j, (k, mode) in enumerate(todo):
                if j not in got:
                    finish(rc or 1, txt if rc else "octave stopped", "%s with request %d (%d) failing" % (fn, k, mode))
                    break
                record(q, bl, got[j], k, mode, refs)
