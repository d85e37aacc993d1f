LEVEL = "model_checking"


def run(ctx):
    ctx.build()
    from concurrent.futures import ThreadPoolExecutor

    def produce():
        with ThreadPoolExecutor(4) as ex:
            return list(ex.map(lambda k: ctx.drive("d_dcttv.py", "c02-%d" % k, {"part": k, "parts": 4}, threads=1 + k % 3), range(4)))
    ctx.check_traces("TraceXf", produce)
