LEVEL = "model_checking"


def run(ctx):
    ctx.parallel(lambda: ctx.model("NestaModel", "NestaModelT.cfg" if ctx.thorough else "NestaModel.cfg", "2"), ctx.build)
    ctx.check_traces("TraceNesta", lambda: [ctx.drive("d_nesta.py", "nesta", {"what": "run"}, threads=2)], shards=8)
