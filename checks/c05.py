import random
LEVEL = "model_checking"


def run(ctx):
    from concurrent.futures import ThreadPoolExecutor
    T = ctx.thorough
    hist = ctx.parallel(lambda: ctx.model("XfModel", "XfModelT.cfg" if T else "XfModel.cfg", "3"),
                        lambda: ctx.behaviours("XfHist", "XfHistT.cfg" if T else "XfHist.cfg"), ctx.build)[1]
    random.Random(ctx.seed).shuffle(hist)
    hist = hist[:6000 if ctx.thorough else 700]
    ctx.extra["histories_replayed"] = len(hist)

    def produce():
        with ThreadPoolExecutor(4) as ex:
            return list(ex.map(lambda k: ctx.drive("d_hist.py", "hist%d" % k, {"hist": hist[k::4], "monitor": True}, threads=1 + k, preload=True, timeout=600), range(4)))
    ctx.check_traces("TraceXf", produce)
