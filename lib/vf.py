"""Framework of the checks: build /repo, run TLC models, run drivers against the
real code, validate the recorded traces with TLC, write evidence, report."""
import json, os, re, threading, shutil, subprocess, sys, tempfile, time, signal, resource
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TLAJARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CFLAGS = "-march=x86-64-v3 -g -Wno-error -fno-optimize-sibling-calls"


class CheckError(Exception):
    """The check itself could not give an answer (exit 2)."""


class Violation(Exception):
    def __init__(self, msg, replay=None):
        super().__init__(msg)
        self.replay = replay


def sh(cmd, cwd=None, env=None, timeout=900, check=True, **kw):
    r = subprocess.run(cmd, cwd=cwd, env=env, timeout=timeout, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if check and r.returncode != 0:
        raise CheckError("command failed (%d): %s\n%s" % (r.returncode, " ".join(map(str, cmd)), r.stdout[-4000:]))
    return r


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        self.B = os.path.join(self.dir, "B")
        self.states = self.transitions = 0
        self.models, self.traces, self.events, self.kinds = [], 0, 0, {}
        self.cases, self.samples, self.assumptions = 0, [], []
        self.extra = {}
        self.lock = threading.Lock()
        self.findings = []
        self.known = load_known(pid)
        self.evdir = os.path.join(VERIF, "evidence")
        os.makedirs(self.evdir, exist_ok=True)

    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    # ------------------------------------------------------------------ build
    def build(self, targets=("l1c",), variants=()):
        """Builds libl1c (and bindings) out of tree from /repo's working tree.
        variants: "O0" = the same sources without optimisation."""
        H = os.path.join(VERIF, "harness")
        self.pre = os.path.join(self.dir, "libpre.so")
        self.libs, self.shims = {}, {}

        def one(variant):
            B = self.B + variant
            os.makedirs(B, exist_ok=True)
            shutil.copy("/opt/vp/cmake/conan_paths.cmake", B)
            env = dict(os.environ, HOME="/root", CC="gcc", CXX="g++")
            sh(["cmake", "-S", REPO, "-B", B, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=", "-DENABLE_MEX=ON",
                "-DHAS_march_native=OFF", "-DHAS_mtune_native=OFF", "-DCMAKE_C_FLAGS=" + CFLAGS,
                "-DCMAKE_CXX_FLAGS=" + CFLAGS, "-DPython3_EXECUTABLE=/usr/bin/python3",
                "-DFETCHCONTENT_FULLY_DISCONNECTED=ON"] + (["-DHAS_O3=OFF"] if variant == "O0" else []), env=env)
            sh(["ninja", "-C", B] + list(targets), env=env)
            libs = [os.path.join(d, f) for d, _, fs in os.walk(B) for f in fs if f == "libl1c.so"]
            if not libs:
                raise CheckError("libl1c.so was not built")
            inc = ["-I", os.path.join(REPO, "include"), "-I", os.path.join(B, "include"), "-I", B]
            shim = os.path.join(self.dir, "libshim%s.so" % variant)
            sh(["gcc", "-std=gnu11", "-O1", "-g", "-fPIC", "-shared", "-w"] + inc +
               [os.path.join(H, "shim.c"), "-o", shim, libs[0], "-Wl,-rpath," + os.path.dirname(libs[0])])
            self.libs[variant], self.shims[variant] = libs[0], shim
        with ThreadPoolExecutor(max_workers=3) as ex:
            list(ex.map(one, [""] + list(variants)))
        self.lib, self.shim = self.libs[""], self.shims[""]
        sh(["gcc", "-std=gnu11", "-O1", "-g", "-fPIC", "-shared", os.path.join(H, "preload.c"),
            "-o", self.pre, "-ldl", "-lpthread"])
        self.log("built", self.lib)

    # -------------------------------------------------------------------- TLC
    def parallel(self, *fns):
        """runs the functions concurrently, returns their results"""
        with ThreadPoolExecutor(max_workers=len(fns)) as ex:
            js = [ex.submit(f) for f in fns]
            return [j.result() for j in js]

    def spec_dir(self):
        with self.lock:
            return self._spec_dir()

    def _spec_dir(self):
        d = os.path.join(self.dir, "spec")
        if not os.path.isdir(d):
            os.makedirs(d)
            for f in os.listdir(os.path.join(VERIF, "spec")):
                if f.endswith((".tla", ".cfg")):
                    shutil.copy(os.path.join(VERIF, "spec", f), d)
            sh(["javac", "-d", d, "-cp", TLAJARS, os.path.join(VERIF, "spec", "java", "RealVec.java")])
        return d

    def tlc(self, module, cfg, env=None, workers="1", timeout=850, heap="3g", args=()):
        d = self.spec_dir()
        meta = tempfile.mkdtemp(prefix="meta", dir=self.dir)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss64m", "-Xmx" + heap,
               "-Djava.io.tmpdir=" + meta, "-cp", d + ":" + TLAJARS, "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE", "-workers", str(workers),
               "-config", cfg] + list(args) + [module + ".tla"]
        try:
            r = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, errors="replace", timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on %s" % module)
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        o = r.stdout
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", o)
        g, dist = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        m = re.search(r"depth of the complete state graph search is (\d+)", o)
        depth = int(m.group(1)) if m else None
        return dict(rc=r.returncode, out=o, gen=g, dist=dist, depth=depth,
                    ok="No error has been found" in o)

    def model(self, module, cfg=None, workers="4", timeout=600, heap="6g", args=()):
        """Exhaustive check of a design model; any error is an error of the check."""
        cfg = cfg or module + ".cfg"
        r = self.tlc(module, cfg, workers=workers, timeout=timeout, heap=heap, args=args)
        if not r["ok"]:
            raise CheckError("model %s/%s failed:\n%s" % (module, cfg, tail(r["out"])))
        self.states += r["dist"]
        self.transitions += r["gen"]
        self.models.append({"module": module, "cfg": cfg, "states": r["dist"], "transitions": r["gen"], "depth": r["depth"]})
        self.log("model", module, cfg, "states", r["dist"], "generated", r["gen"])
        return r

    def behaviours(self, module, cfg, workers="1", timeout=300, args=(), env=None):
        """Runs TLC on a generator model whose behaviours are printed as JSON
        lines <<"BEH", json>> and returns them."""
        r = self.tlc(module, cfg, workers=workers, timeout=timeout, args=args, env=env)
        if not r["ok"] and "-simulate" not in args:
            raise CheckError("generator %s/%s failed:\n%s" % (module, cfg, tail(r["out"])))
        out, seen = [], set()
        for ln in r["out"].splitlines():
            ln = ln.strip()
            if ln.startswith('<<"BEH", "') and ln.endswith('">>'):
                s = json.loads('"' + ln[len('<<"BEH", "'):-3] + '"')
                if s not in seen:
                    seen.add(s)
                    out.append(json.loads(s))
        self.states += r["dist"]
        self.transitions += r["gen"]
        self.models.append({"module": module, "cfg": cfg, "states": r["dist"], "transitions": r["gen"],
                            "behaviours": len(out)})
        self.log("generator", module, cfg, "behaviours", len(out))
        if not out:
            raise CheckError("generator %s produced no behaviours:\n%s" % (module, tail(r["out"])))
        return out

    # ---------------------------------------------------------------- drivers
    def drive(self, driver, name, args=None, env=None, threads=None, preload=False, timeout=300, python="/usr/bin/python3", variant=""):
        """Runs a driver against the real library; returns the trace file."""
        if not self.thorough:              # a hang must still be reported (and confirmed) in time
            timeout = min(timeout, 240)
        out = os.path.join(self.dir, name + ".ndjson")
        note = os.path.join(self.dir, name + ".note")
        for f in (out, note):
            if os.path.exists(f):
                os.unlink(f)
        a = dict(args or {})
        if not preload:
            preload, a["poison"] = True, True
        a.update(seed=self.seed, tier=self.tier, shim=self.shims[variant], lib=self.libs[variant], build=self.B + variant,
                 out=out, note=note, scratch=self.dir, repo=REPO, pre=self.pre)
        af = os.path.join(self.dir, name + ".args.json")
        json.dump(a, open(af, "w"))
        e = dict(os.environ)
        e["PYTHONPATH"] = os.path.join(VERIF, "drivers")
        e["PYTHONDONTWRITEBYTECODE"] = "1"
        e["OMP_NUM_THREADS"] = str(threads or 2)
        e["OPENBLAS_NUM_THREADS"] = str(threads or 2)
        e["OMP_WAIT_POLICY"] = "passive"
        if preload:
            e["LD_PRELOAD"] = self.pre
        e.update(env or {})
        log = os.path.join(self.dir, name + ".log")
        with open(log, "w") as lf:
            p = subprocess.Popen([python, os.path.join(VERIF, "drivers", driver), af], stdout=lf,
                                 stderr=subprocess.STDOUT, env=e, cwd=self.dir, start_new_session=True,
                                 preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30)))
            try:
                rc = p.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                rc = "timeout"
        if rc != 0:
            during = open(note).read().strip("\0 \n") if os.path.exists(note) else "?"
            full = open(log, errors="replace").read()
            txt = full[-1500:]
            # killed, hung, or ended by an exit() inside the library
            died = rc == "timeout" or (isinstance(rc, int) and rc < 0) or "Traceback (most recent" not in full
            if not died:
                raise CheckError("driver %s failed (rc=%s, during %s):\n%s" % (driver, rc, during, txt))
            with open(out, "a") as f:      # the implementation died or hung inside a call
                f.write("\n" + json.dumps({"e": "Crash", "rc": str(rc), "during": during, "log": txt[-300:]}) + "\n")
        self.clean(out)
        return out

    @staticmethod
    def clean(path):
        """drop blank/partial lines (a crash can cut a line)"""
        good = []
        for ln in open(path, errors="replace"):
            ln = ln.strip()
            if not ln:
                continue
            try:
                json.loads(ln)
            except ValueError:
                continue
            good.append(ln)
        with open(path, "w") as f:
            f.write("\n".join(good) + ("\n" if good else ""))

    # ------------------------------------------------------------- validation
    def shard(self, files, k):
        """splits traces at 'Case' events into at most k balanced shard files"""
        cases = []
        for f in files:
            cur = None
            for ln in open(f):
                ln = ln.strip()
                if not ln:
                    continue
                d = json.loads(ln)
                self.kinds[d["e"]] = self.kinds.get(d["e"], 0) + 1
                if d["e"] == "Case" or cur is None:
                    cur = []
                    cases.append(cur)
                cur.append(ln)
        k = max(1, min(k, len(cases)))
        bins = [[0, []] for _ in range(k)]
        for c in sorted(cases, key=lambda c: -sum(map(len, c))):
            b = min(bins, key=lambda b: b[0])
            b[0] += sum(map(len, c)) + 2000 * len(c)
            b[1].append(c)
        out = []
        for i, b in enumerate(bins):
            p = os.path.join(self.dir, "shard%d-%d.ndjson" % (len(os.listdir(self.dir)), i))
            with open(p, "w") as f:
                for c in b[1]:
                    f.write("\n".join(c) + "\n")
            out.append(p)
        return out, len(cases)

    def validate(self, module, files, shards=6, cfg=None, count=True, timeout=850):
        """TLC trace validation.  Returns list of rejections (event, reasons)."""
        cfg = cfg or module + ".cfg"
        self.spec_dir()
        kinds0 = dict(self.kinds)
        sh_, ncases = self.shard(files, shards)
        if not count:
            self.kinds = kinds0

        def one(p):
            lines = [l for l in open(p).read().split("\n") if l]
            r = self.tlc(module, cfg, env={"TRACE": p}, timeout=timeout)
            return p, lines, r
        rej = []
        with ThreadPoolExecutor(max_workers=shards) as ex:
            res = list(ex.map(one, sh_))
        for p, lines, r in res:
            consumed = (r["depth"] or 1) - 1
            if r["depth"] is not None and consumed == len(lines) and r["ok"]:
                if count:
                    self.events += len(lines)
                    self.states += r["dist"]
                    self.transitions += r["gen"]
                continue
            if r["depth"] is None or consumed >= len(lines):
                raise CheckError("trace validation of %s broke down:\n%s" % (module, tail(r["out"])))
            ev = lines[consumed]
            reasons = [" ".join(x.split()) for x in re.findall(r'<<\s*"REJECT",\s*%d,\s*(.*?)\s*>>\s*$' % (consumed + 1), r["out"], re.M | re.S)]
            rej.append({"event": json.loads(ev), "reasons": reasons, "index": consumed + 1,
                        "context": [json.loads(x) for x in last_case(lines, consumed)], "module": module})
        if count:
            self.traces += ncases
            self.cases += ncases
        self.log("validated", module, "cases", ncases, "rejections", len(rej))
        return rej

    def check_traces(self, module, produce, shards=6, cfg=None, timeout=850):
        """produce() -> list of trace files.  A rejection is reported only if a
        second, independent execution is rejected too."""
        files = produce()
        self.sample(files)
        rej = self.validate(module, files, shards, cfg, timeout=timeout)
        rej = self.filter_known(rej)
        if not rej:
            return
        self.log("rejected, repeating:", brief(rej[0]))
        rej2 = []
        for _ in range(3):                 # a race may need several tries
            files2 = produce()
            rej2 = self.filter_known(self.validate(module, files2, shards, cfg, count=False, timeout=timeout), quiet=True)
            if rej2 or time.time() - self.t0 > 300:
                break
        if not rej2:
            self.log("the rejection did not repeat; not reported")
            self.extra.setdefault("unrepeated_rejections", []).append(brief(rej[0]))
            return
        self.fail(rej2[0])

    def filter_known(self, rej, quiet=False):
        out = []
        for r in rej:
            k = match_known(self.known, r)
            if k:
                if not quiet:
                    self.findings.append(k)
            else:
                out.append(r)
        return out

    def fail(self, r):
        d = os.path.join(self.evdir, "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.json" % (self.pid, self.seed))
        json.dump(r, open(p, "w"), indent=1)
        raise Violation(brief(r), p)

    def sample(self, files, n=3):
        for f in files:
            for i, ln in enumerate(open(f)):
                if i in (1, 5) and len(self.samples) < n:
                    d = json.loads(ln)
                    self.samples.append({k: (v if len(str(v)) < 200 else str(v)[:200] + "...") for k, v in d.items()})

    # --------------------------------------------------------------- evidence
    def evidence(self, level, violations=0):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "events_validated": self.events,
               "events_by_kind": self.kinds, "models": self.models, "samples": self.samples or ["none"],
               "evaluations": self.cases}
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": violations}
        with open(os.path.join(self.evdir, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)

    def cleanup(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def last_case(lines, upto):
    i = upto
    while i > 0 and json.loads(lines[i])["e"] != "Case":
        i -= 1
    return lines[i:upto + 1]


def brief(r):
    e = {k: (v if len(str(v)) < 120 else str(v)[:120] + "...") for k, v in r["event"].items()}
    c = r["context"][0] if r["context"] else {}
    c = {k: (v if len(str(v)) < 120 else str(v)[:120] + "...") for k, v in c.items()}
    return "%s rejected %s in case %s: %s" % (r["module"], json.dumps(e), json.dumps(c), "; ".join(r["reasons"]) or "no action of the specification explains this event")


def tail(s, n=60):
    return "\n".join(s.splitlines()[-n:])


# ------------------------------------------------------------- known findings
def load_known(pid):
    out = []
    f = os.path.join(VERIF, "known-findings.jsonl")
    if os.path.exists(f):
        for ln in open(f):
            ln = ln.strip()
            if ln.startswith("{"):
                d = json.loads(ln)
                if d.get("status") == "known" and d["property"] == pid:
                    out.append(d)
    return out


def match_known(known, rej):
    """A finding matches a rejection iff all its 'match' fields equal those of
    the rejected event / its case."""
    for k in known:
        ev, case = rej["event"], (rej["context"][0] if rej["context"] else {})
        if all(str(ev.get(a, case.get(a))) == str(b) for a, b in k["match"].items()):
            return k
    return None
