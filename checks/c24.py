import random
LEVEL = "model_checking"
PAUSES = {"Calls.cfg": [2, 1, 2], "CallsA.cfg": [2, 2, 0], "CallsT.cfg": [3, 2, 2]}


def run(ctx):
    cfgs = ["Calls.cfg", "CallsA.cfg", "CallsT.cfg"]
    beh = ctx.parallel(ctx.build, *[lambda c=c: ctx.behaviours("Calls", c) for c in cfgs])[1:]
    r = ctx.tlc("Calls", "CallsX.cfg")      # shared scratch memory must show in these histories
    if "Invariant Isolated is violated" not in r["out"]:
        raise Exception("the model does not distinguish shared from private work memory")
    plans = [(h, PAUSES[c]) for c, hs in zip(cfgs, beh) for h in hs]
    random.Random(ctx.seed).shuffle(plans)
    if ctx.thorough:
        plans = plans * 4
    ctx.extra["histories_replayed"] = len(plans)

    def produce():
        fs = [lambda k=k: ctx.drive("d_calls.py", "re%d" % k, {"what": "reent", "sub": k, "plans": plans[k::4]}, threads=1) for k in range(4)]
        fs.append(lambda: ctx.drive("d_calls.py", "free", {"what": "free", "sub": 9}, threads=2))
        return ctx.parallel(*fs)
    ctx.check_traces("TraceCalls", produce)
