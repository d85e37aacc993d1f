LEVEL = "model_checking"


def run(ctx):
    ctx.parallel(lambda: ctx.model("LbModel", "LbModelT.cfg" if ctx.thorough else "LbModel.cfg", "1"), ctx.build)
    ctx.check_traces("TraceLB", lambda: ctx.parallel(
        lambda: ctx.drive("d_lb.py", "solve", {"what": "solve"}, threads=1),
        lambda: ctx.drive("d_lb.py", "dct", {"what": "dct"}, threads=2)))
