import os, random
import vf
LEVEL = "model_checking"


def run(ctx):
    def build():
        ctx.build(("l1c", "l1qc_dct", "nesta_dctTV", "breg_anistropic_TV"))
        md = os.path.join(ctx.dir, "mexdir")
        os.makedirs(md)
        vf.sh(["mkoctfile", "--mex", os.path.join(vf.VERIF, "harness", "pre_mex.c"), "-o", os.path.join(md, "premon.mex")], cwd=md)
        return md
    hist, _, md = ctx.parallel(lambda: ctx.behaviours("MexHist", "MexHistT.cfg" if ctx.thorough else "MexHist.cfg"),
                               lambda: ctx.model("MexModel", "MexModelT.cfg" if ctx.thorough else "MexModel.cfg", "2"), build)
    random.Random(ctx.seed).shuffle(hist)
    bad = [h for h in hist if h[0]["fault"] != "none"]
    hist = (hist + bad * 2)[:12000 if ctx.thorough else 2400]
    ctx.extra["histories_replayed"] = len(hist)
    limit = 800 if ctx.thorough else 180

    def produce():
        jobs = [lambda k=k: ctx.drive("d_mex.py", "m%d" % k, {"what": "hist", "hist": hist[k::6], "mexdir": md, "limit": limit, "sub": k}, threads=1, timeout=limit + 30) for k in range(6)]
        jobs += [lambda: ctx.drive("d_mex.py", "mf", {"what": "fault", "n": 6 if ctx.thorough else 2, "mexdir": md, "limit": limit}, threads=1, timeout=limit + 30)]
        return ctx.parallel(*jobs)
    ctx.check_traces("TraceMex", produce, shards=8)
