LEVEL = "model_checking"


def run(ctx):
    ctx.model("TVModel", "TVModelT.cfg" if ctx.thorough else "TVModel.cfg")
    ctx.build(variants=("O0",))

    def produce():
        fs = [ctx.drive("d_tv.py", "tv-small", {"mode": "small"}, threads=2)]
        for t in (1, 2, 3, 5, 8):
            fs.append(ctx.drive("d_tv.py", "tv-t%d" % t, {"mode": "large", "threads": t}, threads=t, env={"GOMP_SPINCOUNT": "3000"}))
        fs.append(ctx.drive("d_tv.py", "tv-O0", {"mode": "large", "threads": 8}, threads=8, variant="O0", env={"GOMP_SPINCOUNT": "3000"}))
        return fs
    ctx.check_traces("TraceTV", produce)
