import random
LEVEL = "model_checking"


def run(ctx):
    hist = ctx.parallel(lambda: ctx.behaviours("LogHist", "LogHist.cfg"),
                        lambda: ctx.model("LogModel", "LogModelT.cfg" if ctx.thorough else "LogModel.cfg", "3"), ctx.build)[0]
    random.Random(ctx.seed).shuffle(hist)
    if ctx.thorough:    # long histories by concatenation
        hist = [hist[k] + hist[k + 1] + hist[k + 2] for k in range(0, 6000, 3)] + hist[6000:9000]
    else:
        hist = [hist[k] + hist[k + 1] for k in range(0, 600, 2)] + hist[600:900]
    ctx.extra["histories_replayed"] = len(hist)

    def produce():
        return ctx.parallel(*[lambda k=k: ctx.drive("d_log.py", "l%d" % k, {"hist": hist[k::4]}, threads=1, timeout=600) for k in range(4)])
    ctx.check_traces("TraceLog", produce, shards=8)
