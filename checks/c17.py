LEVEL = "fault_enumeration"
EPS = ["setup-dct1", "setup-dct1h", "setup-dct2", "setup-dct2h", "setup-tva", "setup-tvs", "setup-tva1", "setup-tvs1", "setup-tva0", "setup-tvs0", "setup-tva2", "setup-dct1r", "setup-mat", "newton", "nesta", "breg", "l1qc1", "l1qc2"]
MORE = [e + z for e in ("newton", "nesta", "breg", "l1qc1", "l1qc2") for z in "bc"]


def run(ctx):
    ctx.parallel(lambda: ctx.model("FaultModel", "FaultModelT.cfg" if ctx.thorough else "FaultModel.cfg", "4"), ctx.build)

    def produce():
        return ctx.parallel(*[lambda e=e: ctx.drive("d_res.py", "f-" + e, {"what": "fault", "eps": [e], "monitor": True}, threads=2, preload=True, timeout=400) for e in (EPS + MORE if ctx.thorough else EPS)])
    ctx.check_traces("TraceRes", produce, shards=8)
