import random
LEVEL = "model_checking"


def run(ctx):
    hist = ctx.parallel(lambda: ctx.behaviours("MemModel", "MemModelT.cfg" if ctx.thorough else "MemModel.cfg"), ctx.build)[0]
    random.Random(ctx.seed).shuffle(hist)
    hist = hist[:20000 if ctx.thorough else 2500]
    ctx.extra["histories_replayed"] = len(hist)

    def produce():
        return ctx.parallel(*[lambda k=k: ctx.drive("d_mem.py", "mem%d" % k, {"hist": hist[k::4], "monitor": True}, threads=1, preload=True, timeout=600) for k in range(4)],
                            *[lambda t=t: ctx.drive("d_mem.py", "memf%d" % t, {"hist": hist[::10]}, threads=t) for t in (1, 4)])
    ctx.check_traces("TraceMem", produce, shards=8)
