LEVEL = "model_checking"


def run(ctx):
    ctx.build()
    ctx.check_traces("TraceXf", lambda: [ctx.drive("d_mat.py", "mat%d" % t, {"monitor": True}, threads=t, preload=True) for t in (1, 4)])
