import random
LEVEL = "model_checking"


def run(ctx):
    hist = ctx.parallel(lambda: ctx.behaviours("ResHist", "ResHistT.cfg" if ctx.thorough else "ResHist.cfg"),
                        lambda: ctx.model("FaultModel", "FaultModelT.cfg" if ctx.thorough else "FaultModel.cfg", "3"), ctx.build)[0]
    random.Random(ctx.seed).shuffle(hist)
    hist = hist[:6000 if ctx.thorough else 800]
    ctx.extra["histories_replayed"] = len(hist)

    def produce():
        return ctx.parallel(*[lambda k=k: ctx.drive("d_res.py", "h%d" % k, {"what": "hist", "hist": hist[k::4], "monitor": True}, threads=1 + k % 2, preload=True, timeout=600) for k in range(4)])
    ctx.check_traces("TraceRes", produce, shards=8)
