LEVEL = "model_checking"


def run(ctx):
    ctx.parallel(lambda: ctx.model("LbModel", "LbModelT.cfg" if ctx.thorough else "LbModel.cfg", "1"),
                 lambda: ctx.build(variants=("O0",)))
    ctx.check_traces("TraceLB", lambda: ctx.parallel(
        lambda: ctx.drive("d_lb.py", "pieces", {"what": "pieces"}, threads=1),
        lambda: ctx.drive("d_lb.py", "pieces4", {"what": "pieces"}, threads=4, variant="O0"),
        lambda: ctx.drive("d_lb.py", "races", {"what": "races"}, threads=8, variant="O0", env={"GOMP_SPINCOUNT": "3000"}),
        lambda: ctx.drive("d_lb.py", "races3", {"what": "races"}, threads=8, env={"GOMP_SPINCOUNT": "3000"}),
        lambda: ctx.drive("d_lb.py", "path", {"what": "path"}, threads=2)))
