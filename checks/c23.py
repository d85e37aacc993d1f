LEVEL = "model_checking"


def run(ctx):
    ctx.parallel(ctx.build, lambda: ctx.model("Calls", "Calls.cfg", "2"))

    def produce():
        return ctx.parallel(*[lambda k=k: ctx.drive("d_calls.py", "cb%d" % k, {"what": "protocol", "sub": k}, threads=1 + k % 2) for k in range(4)])
    ctx.check_traces("TraceCalls", produce)
