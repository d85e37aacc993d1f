LEVEL = "model_checking"


def run(ctx):
    ctx.parallel(lambda: ctx.model("KernModel", "KernModelT.cfg" if ctx.thorough else "KernModel.cfg", "4"),
                 lambda: ctx.build(variants=("O0",)))

    def produce():
        fs = [ctx.drive("d_kern.py", "k-small", {"mode": "small"}, threads=2),
              ctx.drive("d_kern.py", "k-small0", {"mode": "small"}, threads=3, variant="O0")]
        for t in (1, 3, 8):
            fs.append(ctx.drive("d_kern.py", "k-t%d" % t, {"mode": "large"}, threads=t, env={"GOMP_SPINCOUNT": "3000"}))
        return fs
    ctx.check_traces("TraceKern", produce, shards=8)
