LEVEL = "model_checking"


def run(ctx):
    ctx.parallel(lambda: ctx.model("CgModel", "CgModelT.cfg" if ctx.thorough else "CgModel.cfg", "2"),
                 lambda: ctx.model("CgModel", "CgModel0.cfg", "1"), ctx.build)
    ctx.check_traces("TraceCG", lambda: [ctx.drive("d_cg.py", "cg", {"prec": False}, threads=2)])
