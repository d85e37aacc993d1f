"""C06: argument validation of the set-ups."""
from xf import *


def conc(a):
    r, c = a["r"], a["c"]
    huge = r > 0 and c > 0 and r * c > 2147483647
    tot = 20 if huge else max(1, r * c) if r > 0 and c > 0 else 4
    n = {"neg": rnd.choice([-1, -7, -2147483648]), "zero": 0, "one": 1, "two": 2, "tot": tot}[a["n"]]
    ln = max(1, n)
    base = [k % tot for k in range(ln)]
    if ln <= tot:
        base = subset(tot, ln)
    k = a["i"]
    if k == "last":
        base = [x for x in base if x != tot - 1][: ln - 1] + [tot - 1] if ln <= tot else base
    elif k == "negfirst":
        base[0] = -1
    elif k == "neglast":
        base[-1] = rnd.choice([-1, -2147483648])
    elif k == "overfirst":
        base[0] = tot
    elif k == "overlast":
        base[-1] = tot
    elif k == "far":
        base[rnd.randrange(ln)] = 2147483647
    w = {-1: rnd.choice([-1.0, -1e-9]), 0: 0.0, 1: rnd.choice([1.0, 1e-6, 3.5])}
    return Set(a["api"], n, r, c, base, mode=a["mode"], bp=a["bp"], av=w[a["av"]], ah=w[a["ah"]])


for a in A["cases"]:
    s = conc(a)
    emit(e="Case", faults=a["faults"])
    if PRE:
        PRE.pre_start(), PRE.pre_forget(), PRE.pre_stop()
    if s.setup() == 0:
        if len(set(s.idxl[:s.n])) == s.n:
            for op in ("Mx", "Ax", "Aty") if rnd.random() < 0.5 else ("Mty", "Wtx", "Rx"):
                s.op(op)
        s.destroy()
    elif rnd.random() < 0.2:      # the library still works after a refusal
        t = Set("dcttv", 5, 3, 4, subset(12, 5), mode=rnd.choice([1, 2]), bp=rnd.choice([1, 2]), av=1.0, ah=0.5)
        if t.setup() == 0:
            t.op("Mx"), t.op("Aty")
            t.destroy()
        t.free()
    s.free()
# long index lists: one bad entry anywhere among thousands
for rep in range(2 if not THOROUGH else 12):
    for api, r, c, mode in (("dct", 64, 64, 2), ("dct", 1, 4096, 1), ("dct", 64, 32, 1), ("dcttv", 64, 64, 2), ("dcttv", 4096, 1, 1)):
        tot = r * c
        n = rnd.randint(tot * 9 // 10, tot)
        for bad in ((None,) if A.get("long") and rep == 0 and r < 4096 else ()) + (-1, tot, rnd.choice([tot + 1, -2147483648, 2147483647])):
            idx = rnd.sample(range(tot), n)
            if bad is not None:
                idx[rnd.randrange(n)] = bad
            w = rnd.choice([(0.0, 0.0), (1.0, 0.0), (0.5, 2.0)]) if api == "dcttv" and c > 2 else (0.0, 0.0)
            s = Set(api, n, r, c, idx, mode=2 if api == "dcttv" and c > 2 else mode, bp=rnd.choice([1, 2]), av=w[0], ah=w[1])
            emit(e="Case", faults=int(bad is not None), long=n)
            if PRE:
                PRE.pre_start(), PRE.pre_forget(), PRE.pre_stop()
            if s.setup() == 0:
                s.op("Rx")
                s.destroy()
            s.free()
