LEVEL = "model_checking"


def run(ctx):
    ctx.parallel(lambda: ctx.model("BregModel", "BregModelT.cfg" if ctx.thorough else "BregModel.cfg", "4"), lambda: ctx.build(variants=("O0",)))
    ctx.check_traces("TraceBreg", lambda: [ctx.drive("d_breg.py", "breg", threads=2),
                                             ctx.drive("d_breg.py", "races", {"what": "races"}, threads=8, variant="O0", env={"GOMP_SPINCOUNT": "3000"}),
                                             ctx.drive("d_breg.py", "races3", {"what": "races"}, threads=8, env={"GOMP_SPINCOUNT": "3000"})], shards=8)
