import random
LEVEL = "model_checking"


def run(ctx):
    hist = ctx.parallel(lambda: ctx.behaviours("JsonHist", "JsonHist.cfg"), lambda: ctx.model("JsonModel"), ctx.build)[0]
    random.Random(ctx.seed).shuffle(hist)
    if not ctx.thorough:
        hist = hist[:1200]
    else:
        hist = hist * 3

    def produce():
        return ctx.parallel(*[lambda k=k: ctx.drive("d_json.py", "j%d" % k, {"hist": hist[k::4], "faults": k == 0}, threads=1, preload=True, timeout=400) for k in range(4)])
    ctx.check_traces("TraceJson", produce, shards=8)
    # arrays of arrays: known finding, one execution per extractor
    for x in ("darr", "iarr"):
        ctx.check_traces("TraceJson", lambda: [ctx.drive("d_json.py", "n" + x, {"hist": [], "nested": x}, threads=1, preload=True)], shards=1)
