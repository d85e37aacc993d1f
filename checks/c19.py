import random
LEVEL = "model_checking"


def run(ctx):
    hist = ctx.parallel(lambda: ctx.behaviours("PyHist", "PyHistT.cfg" if ctx.thorough else "PyHist.cfg"),
                        lambda: ctx.model("PyModel", "PyModelT.cfg" if ctx.thorough else "PyModel.cfg", "2"),
                        lambda: ctx.build(("l1c", "_l1cPy_module")))[0]
    random.Random(ctx.seed).shuffle(hist)
    # every class at least once, then random pairs
    pick, rest, seen = [], [], set()
    for h in hist:
        k = repr(h[0]) if h[0]["fault"] != "none" else (h[0]["fn"], h[0]["lay"], h[0]["ilay"] if h[0]["fn"] != "breg" else "", h[0]["style"])
        (rest if k in seen else pick).append(h)
        seen.add(k)
    n = 6000 if ctx.thorough else 800
    hist = (pick + rest)[:n]
    random.Random(ctx.seed + 1).shuffle(hist)
    ctx.extra["histories_replayed"] = len(hist)

    def produce():
        jobs = [lambda k=k: ctx.drive("d_py.py", "p%d" % k, {"what": "hist", "hist": hist[k::6], "sub": k, "monitor": True}, threads=1, preload=True, timeout=800 if ctx.thorough else 300) for k in range(6)]
        jobs += [lambda: ctx.drive("d_py.py", "pf", {"what": "fault", "n": 8 if ctx.thorough else 2, "monitor": True}, threads=1, preload=True, timeout=800 if ctx.thorough else 300)]
        return ctx.parallel(*jobs)
    ctx.check_traces("TracePy", produce, shards=8)
