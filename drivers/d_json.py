"""C22: the JSON loader, with every document kind, truncation and fault."""
import threading
from common import *
j_load, j_del, j_text = sig("j_load", i, C.c_char_p, C.POINTER(vp)), sig("j_del", None, vp), sig("j_text", i, C.c_char_p, C.POINTER(vp))
j_int, j_dbl = sig("j_int", i, vp, C.c_char_p, C.POINTER(i)), sig("j_dbl", i, vp, C.c_char_p, C.POINTER(d))
j_darr, j_iarr = sig("j_darr", i, vp, C.c_char_p, C.POINTER(vp), C.POINTER(i)), sig("j_iarr", i, vp, C.c_char_p, C.POINTER(vp), C.POINTER(i))
j_freed, j_freei = sig("j_freed", None, vp), sig("j_freei", None, vp)
j_flen = sig("j_flen", C.c_long, C.c_char_p)
PRE = C.CDLL(A["pre"], mode=C.RTLD_GLOBAL)
PRE.pre_target.argtypes = [C.c_char_p]
PRE.pre_fail.argtypes = [C.c_long, i]
if PRE.pre_target(b"libl1c.so") < 1 or PRE.pre_target(b"libcjson.so") < 1:
    raise SystemExit("libraries not found in the process")
DIR = os.path.join(A["scratch"], "json-" + os.path.basename(A["out"]))
os.makedirs(DIR, exist_ok=True)
BAD = (4, 8, 9, 12)


def mon(fn, k=-1, mode=0, rf=0):
    """runs fn under the monitor"""
    PRE.pre_start()
    h0, n0 = PRE.pre_live(0), PRE.pre_nev()
    PRE.pre_fail(k, mode), PRE.pre_readfail(rf)
    st = fn()
    nreq = PRE.pre_nreq()
    PRE.pre_fail(-1, 0), PRE.pre_readfail(0)
    evs = [PRE.pre_ev(q, 0) for q in range(n0, PRE.pre_nev())]
    r = dict(st=st, h0=h0, h1=PRE.pre_live(0), f1=PRE.pre_live(2), bad=sum(q in BAD for q in evs) + PRE.pre_damaged(), nfail=sum(q in (3, 7) for q in evs))
    PRE.pre_stop()
    return r, nreq


INTS = [0, 1, -1, 7, 2147483647, -2147483648, 100000, -99999]


def rint():
    return rnd.choice(INTS + [rnd.randrange(-2 ** 31, 2 ** 31)])


def rfrac():
    return rnd.choice([0.5, -0.1, 1e-300, 1.7976931348623157e308, 3.141592653589793, 1e22, 5e-324, rnd.uniform(-1, 1), rnd.gauss(0, 1e5), 2.5e-7])


class Doc:
    """a random object; fields by kind"""

    def __init__(s):
        n = rnd.choice([1, 2, 3, 7, 8, 9, 33, 64, 200])
        names = ["n", "mrow", "x0", "pix_idx", "b", "a long name with spaces", "été", "x", "X1", "opts"]
        rnd.shuffle(names)
        s.v = {"int": rint(), "frac": rfrac(), "ints": [rint() for _ in range(n)], "fracs": [rfrac() for _ in range(n)], "empty": [], "string": rnd.choice(["", "12", "null"]), "bool": rnd.random() < 0.5, "null": None,
               "object": {"n": 3}, "mixed": [1, rnd.choice(["2", None, True, {"a": 1}]), 3.5], "nested": [[1, 2], [3, 4]]}
        kinds = list(s.v)
        s.name = {k: "%s_%d" % (rnd.choice(names), q) for q, k in enumerate(kinds)}
        s.name["missing"] = "not there"
        rnd.shuffle(kinds)
        s.obj = {}
        s.decoy = rnd.random() < 0.5    # the same names in other case hold other values
        if s.decoy:
            for k in ("int", "frac", "ints", "fracs", "empty"):
                s.obj[s.other(k)] = rnd.choice([5, [9, 9], "no", None])
        s.obj.update({s.name[k]: s.v[k] for k in kinds})
        s.name["othercase"] = ""

    def other(s, k):
        return s.name[k].swapcase() if s.name[k].swapcase() != s.name[k] else s.name[k] + "Z"

    def field(s, x, f):
        return s.name[f] if f != "othercase" else s.other("ints" if x in ("iarr", "darr") else "int") + ("Q" if s.decoy else "")

    def text(s):
        return json.dumps(s.obj, ensure_ascii=rnd.random() < 0.5, indent=rnd.choice([None, 0, 3]), separators=rnd.choice([None, (",", ":")]) or None) + rnd.choice(["", "\n", " \n\t "])


cnt = 0


def make(kind, doc):
    """returns (path, content or None, helper thread)"""
    global cnt
    cnt += 1
    p = os.path.join(DIR, "f%d.json" % cnt)
    t = doc.text()
    if kind == "missing":
        return p, None, None
    if kind == "directory":
        os.mkdir(p)
        return p, None, None
    if kind == "fifo":
        os.mkfifo(p)

        def feed():
            try:
                with open(p, "w") as f:
                    f.write(t)
            except OSError:
                pass
        th = threading.Thread(target=feed, daemon=True)
        th.start()
        return p, None, th
    c = {"object": t, "rootarray": "[1, 2.5, 3]", "rootnumber": " 17\n", "rootstring": '"n"', "empty": "", "blank": rnd.choice([" ", "\n\n", "\t \r\n"]),
         "prefix": t.rstrip()[:rnd.randrange(1, len(t.rstrip()))], "garbage": rnd.choice(["hello", "{'n': 1}", "{n: 1}", '{"n" 1}', '{"n": }', "[1,,2]", "{", "}", "[1, 2", '{"n": 1,}', "<json>", "=1"])}[kind]
    with open(p, "w") as f:
        f.write(c)
    return p, c.encode(), None


def load(kind, p, k=-1, mode=0, rf=0):
    note("load %s fail=%d" % (kind, k))
    out = vp(None)
    r, nreq = mon(lambda: j_load(p.encode(), C.byref(out)), k, mode, rf)
    emit(e="Load", kind=kind, tree=b01(out.value), k=k, **r)
    return (out.value if r["st"] == 0 else None), nreq


def text(kind, p, c, k=-1, rf=0):
    note("text %s" % kind)
    out = vp(None)
    r, nreq = mon(lambda: j_text(p.encode(), C.byref(out)), k, 0, rf)
    same = 0
    if r["st"] == 0 and c is not None and out.value:
        same = b01(C.string_at(out.value, len(c) + 1) == c + b"\0")
    emit(e="Text", kind=kind, same=same, **r)
    if r["st"] == 0:
        PRE.pre_start(), j_freei(out.value), PRE.pre_stop()
    return nreq


def extract(tree, doc, x, f, k=-1, mode=0):
    if f == "nested" and x in ("iarr", "darr") and not A.get("nested"):
        f = "mixed"     # arrays of arrays: a known finding, examined on its own
    nm = doc.field(x, f).encode()
    note("extract %s %s fail=%d" % (x, f, k))
    N, v, dv, arr = i(-7), i(-77), d(-7.5), vp(None)
    if x == "int":
        r, nreq = mon(lambda: j_int(tree, nm, C.byref(v)), k, mode)
    elif x == "dbl":
        r, nreq = mon(lambda: j_dbl(tree, nm, C.byref(dv)), k, mode)
    else:
        r, nreq = mon(lambda: (j_iarr if x == "iarr" else j_darr)(tree, nm, C.byref(arr), C.byref(N)), k, mode)
    want, got, wn, gn = [], [], 0, 0
    if r["st"] == 0:
        got = [v.value] if x == "int" else [dv.value] if x == "dbl" else list(C.cast(arr, C.POINTER(i if x == "iarr" else d))[:max(0, N.value)])
    w = doc.v.get(f)
    if f in ("int", "frac"):
        want = [w]
    elif f in ("ints", "fracs", "empty"):
        want, wn = w, len(w)
    gn = N.value if x in ("iarr", "darr") else 0
    if x in ("int", "dbl"):
        wn = 0
    emit(e="Extract", x=x, f=f, N=gn, wantN=wn, got=vec(got), want=vec(want), k=k, **r)
    if r["st"] == 0 and x in ("iarr", "darr"):
        PRE.pre_start(), (j_freei if x == "iarr" else j_freed)(arr.value), PRE.pre_stop()
    return nreq


def release(tree):
    if tree:
        PRE.pre_start(), j_del(tree), PRE.pre_stop()
    r, _ = mon(lambda: 0)
    emit(e="Release", **r)
    PRE.pre_start(), PRE.pre_reset()
    if r["h1"] or r["f1"]:
        PRE.pre_forget()
    PRE.pre_stop()


def rm(p, th):
    if th:
        try:
            fd = os.open(p, os.O_RDONLY | os.O_NONBLOCK)
            th.join(0.2)
            os.close(fd)
        except OSError:
            pass
    if os.path.isdir(p):
        os.rmdir(p)
    elif os.path.lexists(p):
        os.unlink(p)


for kind, ops in A["hist"]:
    doc = Doc()
    emit(e="Case", kind=kind, ops=" ; ".join("%s %s" % tuple(o) for o in ops))
    p, c, th = make(kind, doc)
    tree, _ = load(kind, p)
    for x, f in ops:
        if tree is None and rnd.random() < 0.8 and kind not in ("missing", "garbage"):
            continue
        extract(tree, doc, x, f)
    release(tree)
    if rnd.random() < 0.2 and kind != "fifo":
        text(kind, p, c)
        release(None)
        if c is not None:
            emit(e="Len", got=j_flen(p.encode()), want=len(c))
    rm(p, th)

if A.get("faults"):
    for rep in range(2 if not THOROUGH else 8):
        doc = Doc()
        for kind in ("object", "rootarray", "garbage", "prefix"):
            emit(e="Case", kind="faults " + kind)
            p, c, _ = make(kind, doc)
            tree, nreq = load(kind, p)
            release(tree)
            step = max(1, nreq // 60)
            for k in range(0, nreq, step):
                for mode in (0, 1):
                    t, _ = load(kind, p, k, mode)
                    release(t)
            t, _ = load(kind, p, rf=1)
            release(t)
            for k in range(2):
                text(kind, p, c, k)
                release(None)
            text(kind, p, c, rf=1)
            release(None)
            tree, _ = load(kind, p)
            for x in ("int", "dbl", "iarr", "darr"):
                for f in doc.name:
                    n = extract(tree, doc, x, f) if tree else 0
                    for k in range(n):
                        extract(tree, doc, x, f, k)
            release(tree)
            rm(p, None)
    # every proper prefix of a small document is malformed
    emit(e="Case", kind="prefixes")
    t = json.dumps({"n": 12, "x": [1, 2.5, -3e-7], "s": "a\\u00e9\"", "o": {"b": [True, None, {}]}})
    for q in range(1, len(t)):
        p = os.path.join(DIR, "p.json")
        open(p, "w").write(t[:q])
        tree, _ = load("prefix", p)
        release(tree)
    open(p, "w").write(t)
    tree, _ = load("rootarray", p)
    release(tree)
    # array lengths
    for n in list(range(0, 40)) + [63, 64, 65, 255, 256, 257, 1000, 4096, 32769, 65537, 131073] + ([200000, 400001] if THOROUGH else []):
        emit(e="Case", kind="length %d" % n)
        doc = Doc()
        doc.v["ints"], doc.v["fracs"] = [rint() for _ in range(n)], [rfrac() for _ in range(n)]
        doc.obj[doc.name["ints"]], doc.obj[doc.name["fracs"]] = doc.v["ints"], doc.v["fracs"]
        p, c, _ = make("object", doc)
        tree, _ = load("object", p)
        for x, f in (("iarr", "ints"), ("darr", "ints"), ("darr", "fracs")):
            extract(tree, doc, x, f)
        release(tree)
        rm(p, None)

if A.get("nested"):
    emit(e="Case", kind="array of arrays")
    doc = Doc()
    p, c, _ = make("object", doc)
    tree, _ = load("object", p)
    extract(tree, doc, A["nested"], "nested")
    release(tree)
    rm(p, None)
