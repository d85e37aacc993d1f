import random
LEVEL = "model_checking"


def run(ctx):
    hs = ctx.parallel(lambda: ctx.behaviours("LineSearch", "LineSearchT.cfg" if ctx.thorough else "LineSearch.cfg"), ctx.build)[0]
    R = random.Random(ctx.seed)
    short = [h for h in hs if len(h["hist"]) <= 4]
    long_ = [h for h in hs if 4 < len(h["hist"]) < 32]
    full = [h for h in hs if len(h["hist"]) == 32]
    for x in (short, long_, full):
        R.shuffle(x)
    if ctx.thorough:
        short, long_, full = short, long_[:3000], full[:600]
    else:
        short, long_, full = short, long_[:160], full[:60]
    hs = short + long_ + full
    ctx.extra["answer_sequences"] = len(hs)
    ctx.check_traces("TraceLS", lambda: [ctx.drive("d_ls.py", "ls%d" % k, {"hists": hs[k::2]}, threads=1 + k) for k in range(2)])
