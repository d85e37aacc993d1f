import random
LEVEL = "model_checking"


def run(ctx):
    from concurrent.futures import ThreadPoolExecutor
    cs = ctx.parallel(lambda: ctx.behaviours("XfArgs", "XfArgs.cfg"), ctx.build)[0]
    R = random.Random(ctx.seed)
    few, many = [c for c in cs if c["faults"] <= 1], [c for c in cs if c["faults"] > 1]
    R.shuffle(few), R.shuffle(many)
    if not ctx.thorough:
        huge = [c for c in few if c["r"] > 9 or c["c"] > 9]
        few, many = huge + [c for c in few if c not in huge][:3500], many[:900]
    cs = few + many
    ctx.extra["argument_classes"] = len(cs)

    def produce():
        with ThreadPoolExecutor(4) as ex:
            return list(ex.map(lambda k: ctx.drive("d_args.py", "args%d" % k, {"cases": cs[k::4], "monitor": True, "long": k == 0}, threads=1 + k % 2, preload=True, timeout=600 if ctx.thorough else 120), range(4)))
    ctx.check_traces("TraceXf", produce)
