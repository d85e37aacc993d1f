LEVEL = "model_checking"


def run(ctx):
    ctx.parallel(lambda: ctx.model("NestaModel", "NestaModelT.cfg" if ctx.thorough else "NestaModel.cfg", "2"), ctx.build)
    ctx.check_traces("TraceNesta", lambda: [ctx.drive("d_nesta.py", "pieces", {"what": "pieces"}, threads=2)], shards=8)
