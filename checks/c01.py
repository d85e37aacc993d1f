LEVEL = "model_checking"


def run(ctx):
    idx = ctx.parallel(lambda: ctx.behaviours("XfIdx", "XfIdxT.cfg" if ctx.thorough else "XfIdx.cfg"), ctx.build)[0]
    ctx.extra["ordered_sample_sets"] = len(idx)

    def produce():
        return ctx.parallel(*[lambda k=k: ctx.drive("d_dct.py", "dct%d" % k, {"part": k, "parts": 6, "idx": idx[k::6]}, threads=1 + k % 3) for k in range(6)])
    ctx.check_traces("TraceXf", produce, shards=8)
