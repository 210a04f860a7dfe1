"""Machinery shared by the checks: building the drivers, running them, running TLC, evidence."""
import concurrent.futures as cf
import copy, json, os, random, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VERIF_BUILD", f"{VERIF}/build")
SPEC = f"{VERIF}/spec"
TLA = "/opt/veriftools/tla"
JARS = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"
CORES = max(1, len(os.sched_getaffinity(0)))
sys.path.insert(0, f"{VERIF}/bin")
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"


class ToolError(Exception):
    """the machinery failed, nothing is known about the property"""


class BuildError(ToolError):
    """a driver does not build against the current tree"""


class Violation(Exception):
    def __init__(self, what, detail):
        super().__init__(what)
        self.what, self.detail = what, detail


def sh(cmd, timeout, env=None, cwd=None):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                         env=e, cwd=cwd, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, _ = p.communicate()
        return None, out


CARGO_ENV = {
    "HOME": "/root",
    "PATH": "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + os.environ.get("PATH", ""),
    "RUSTUP_TOOLCHAIN": "nightly-2024-07-07", "CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never",
    "RUSTC_WRAPPER": "", "CARGO_INCREMENTAL": "1", "RUSTFLAGS": "-Awarnings",
}


class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.deep = self.tier == "thorough"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.events = 0
        self.models, self.samples, self.assumptions, self.notes = [], [], [], []
        self.findings = []
        self.dir = f"{BUILD}/run/{pid}"
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self._built = {}

    # ---- building -----------------------------------------------------------------------------
    def cargo(self, package, features, modes=()):
        """builds a driver (with these modes) from /repo's working tree; returns the executable"""
        features = list(features) + [f"m-{m}" for m in modes]
        key = (package, tuple(features))
        if key in self._built:
            return self._built[key]
        import wsgen
        ws = wsgen.generate(BUILD)
        env = dict(CARGO_ENV, CARGO_TARGET_DIR=f"{BUILD}/target")
        cmd = ["cargo", "build", "--offline", "-p", package, "--no-default-features"]
        if features:
            cmd += ["--features", ",".join(features)]
        rc, out = sh(cmd, 840, env, ws)
        if rc != 0:
            raise BuildError(f"cargo build of {package} [{','.join(features)}] failed:\n{out[-4000:]}")
        os.makedirs(f"{BUILD}/bin", exist_ok=True)
        exe = f"{BUILD}/bin/{package}-{'-'.join(features) or 'plain'}"
        shutil.copy2(f"{BUILD}/target/debug/{package}", exe)
        self._built[key] = exe
        return exe

    def cargo_opt(self, package, features, modes=()):
        """as cargo, for a secondary configuration: None when it does not build (C09 judges that)"""
        try:
            return self.cargo(package, features, modes)
        except BuildError as e:
            self.notes.append(f"not explored: {package} [{','.join(features)}] does not build: {str(e)[-300:]}")
            return None

    def java(self):
        src, out = f"{VERIF}/java", f"{BUILD}/java"
        newest = max(os.path.getmtime(f"{src}/{f}") for f in os.listdir(src))
        if os.path.exists(f"{out}/BigField.class") and os.path.getmtime(f"{out}/BigField.class") >= newest:
            return out
        os.makedirs(out, exist_ok=True)
        rc, o = sh(["javac", "-cp", JARS, "-d", out] + [f"{src}/{f}" for f in os.listdir(src)], 120)
        if rc != 0:
            raise ToolError("javac failed: " + o)
        return out

    # ---- running the code under test ------------------------------------------------------------
    def drive(self, exe, mode, name=None, seed=None, timeout=300, env=None, extra=(), wrap=()):
        """runs a driver mode; returns its trace directory"""
        name = name or mode
        out = f"{self.dir}/{name}"
        os.makedirs(out, exist_ok=True)
        seed = self.seed if seed is None else seed
        cmd = list(wrap) + [exe, mode, str(seed), self.tier, out] + list(extra)
        rc, o = sh(cmd, timeout, env)
        if rc != 0:
            rc2, o2 = sh(cmd, timeout, dict(env or {}, VERIF_SHOW_PANICS="1"))
            raise Violation(f"the code under test took the driver down (mode {mode}, exit {rc})",
                            {"command": cmd, "output": (o + o2)[-3000:]})
        self.traces += 1
        return out

    # ---- TLC ------------------------------------------------------------------------------------
    def tlc(self, module, cfg=None, trace=None, expect="ok", env=None, timeout=600, workers=None, count=True,
            heap=None, what=None, args=(), on_timeout=None):
        """runs TLC.  trace: directory of the trace (trace specs); expect='violation' for deliberate negatives."""
        cls = self.java()
        cfg = cfg or module
        import threading
        meta = f"{self.dir}/tlc-{cfg}-{time.time_ns()}-{threading.get_ident()}"
        e = {"SPEC_DATA": f"{SPEC}/data", "OUT": self.dir}
        if trace:
            e["TRACE_DIR"] = trace
        e.update(env or {})
        cmd = ["java", "-Xss64m", "-XX:+UseParallelGC", f"-Xmx{heap or '6g'}", f"-DTLA-Library={SPEC}",
               "-cp", f"{cls}:{JARS}", "tlc2.TLC", "-nowarning", "-metadir", meta, "-workers", str(workers or CORES), "-noGenerateSpecTE",
               "-config", f"{SPEC}/{cfg}.cfg", *args, f"{SPEC}/{module}.tla"]
        t = time.time()
        rc, out = sh(cmd, timeout, e, cwd=self.dir)
        shutil.rmtree(meta, ignore_errors=True)
        dt = time.time() - t
        if rc is None and on_timeout:
            return on_timeout(out)
        if rc is None:
            raise ToolError(f"TLC timed out on {cfg} after {timeout}s\n{out[-1500:]}")
        if "BigField" in open(f"{SPEC}/{module}.tla").read() and "override" not in out and "Parsing" not in out:
            raise ToolError("BigField override not loaded\n" + out[-1500:])
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        gen, dis = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
        ok = "Model checking completed. No error has been found." in out
        broken = (re.search(r"Parsing or semantic analysis failed|OutOfMemory|StackOverflow|Unknown operator|could not be found", out)
                  or "Computing initial states" not in out)
        r = {"cfg": cfg, "ok": ok, "states": dis, "transitions": gen, "wall_s": round(dt, 2), "out": out}
        if expect == "violation":
            if ok or broken:
                raise ToolError(f"negative run {cfg} was not rejected as it must be\n{out[-2500:]}")
            return r
        if count:
            self.states += dis
            self.transitions += gen
            self.models.append({"spec": cfg, "states": dis, "transitions": gen, "wall_s": r["wall_s"],
                                **({"events": what} if what else {})})
        if ok:
            return r
        if broken:
            raise ToolError(f"TLC failed on {cfg}\n{out[-3000:]}")
        rej = re.findall(r"rejected = (\d+)", out)
        r["rejected"] = int(rej[-1]) if rej else None
        return r

    def model(self, module, cfg=None, **kw):
        """a design model: an error in it is an error of the machinery, not of the code"""
        r = self.tlc(module, cfg, **kw)
        if not r["ok"]:
            raise ToolError(f"design model {r['cfg']} fails\n{r['out'][-3000:]}")
        return r

    def negative(self, module, cfg):
        self.tlc(module, cfg, expect="violation", count=False)
        self.notes.append(f"negative design {cfg} rejected, as it must be")

    def validate(self, module, trace, cfg=None, **kw):
        """trace validation; raises Violation when an event is rejected"""
        f = f"{trace}/trace.ndjson"
        n = sum(1 for _ in open(f)) if os.path.exists(f) else 0
        r = self.tlc(module, cfg, trace=trace, what=n, **kw)
        if not r["ok"]:
            ev = None
            if r.get("rejected") and os.path.exists(f):
                with open(f) as fh:
                    for i, line in enumerate(fh, 1):
                        if i == r["rejected"]:
                            ev = json.loads(line)
            raise Violation(f"{module} rejects the trace of the real code"
                            + (f" at event {r['rejected']}" if r.get("rejected") else ""),
                            {"trace": trace, "event": ev, "tlc": r["out"][-3000:]})
        self.events += n
        if n and len(self.samples) < 6:
            with open(f) as fh:
                line = fh.readline()
                self.samples.append(json.loads(line) if len(line) < 3000 else line[:600] + "...")
        return r

    def corrupted(self, module, trace, mutate, cfg=None, near=100, **kw):
        """binding self-test: a copy of the trace with one corrupted event must be rejected.
        mutate(event) -> corrupted event or None"""
        neg = trace + "-neg"
        shutil.rmtree(neg, ignore_errors=True)
        shutil.copytree(trace, neg)
        lines = open(f"{trace}/trace.ndjson").read().splitlines()
        rng = random.Random(self.seed)
        idx = list(range(len(lines)))
        rng.shuffle(idx)
        for i in idx:
            e = json.loads(lines[i])
            m = mutate(copy.deepcopy(e))
            if m is not None and m != e:
                # keep the negative run short: only events up to a few hundred around the corrupted one
                lo = max(0, i - near)
                keep = lines[lo:i] + [json.dumps(m)] + lines[i + 1:i + near]
                open(f"{neg}/trace.ndjson", "w").write("\n".join(keep) + "\n")
                break
        else:
            raise ToolError("no event to corrupt")
        self.tlc(module, cfg, trace=neg, expect="violation", count=False, **kw)
        self.notes.append(f"{module}: a trace with one corrupted event is rejected")
        shutil.rmtree(neg, ignore_errors=True)

    def parallel(self, jobs, width=None):
        """runs thunks concurrently; the first Violation wins over ToolErrors"""
        res, errs = [], []
        with cf.ThreadPoolExecutor(width or 3) as ex:
            fs = [ex.submit(j) for j in jobs]
            for f in fs:
                try:
                    res.append(f.result())
                except (Violation, ToolError) as e:
                    errs.append(e)
        for e in errs:
            if isinstance(e, Violation):
                raise e
        if errs:
            raise errs[0]
        return res

    # ---- results ----------------------------------------------------------------------------------
    def evidence(self, violations, extra=None):
        os.makedirs(f"{VERIF}/evidence", exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "samples": self.samples[:6] or ["(no trace)"],
               "events_validated": self.events, "models": self.models, "self_tests": self.notes,
               "known_findings": self.findings}
        cov.update(extra or {})
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": violations}
        with open(f"{VERIF}/evidence/{self.pid}.json", "w") as f:
            json.dump(ev, f, indent=1)


def known_findings(pid):
    path = f"{VERIF}/known_findings.json"
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path)).get("findings", []) if k["property"] == pid]


def run(pid, fn):
    os.makedirs(f"{BUILD}/replay", exist_ok=True)
    c = Ctx(pid)
    try:
        fn(c)
        for k in c.findings:
            print(f"KNOWN-FINDING: property={pid} {k}")
        c.evidence(0)
        print(f"{pid}: held; {c.states} states, {c.transitions} transitions, {c.events} events of {c.traces} runs of the real code, {time.time()-c.t0:.1f}s")
        return 0
    except Violation as v:
        path = f"{BUILD}/replay/{pid}.json"
        with open(path, "w") as f:
            json.dump({"property": pid, "what": v.what, "detail": v.detail, "tier": c.tier, "seed": c.seed,
                       "rerun": f"VERIF_SEED={c.seed} VERIF_TIER={c.tier} /verif/bin/check {pid}"}, f, indent=1, default=str)
        c.evidence(1)
        print(v.what)
        print(json.dumps(v.detail, default=str)[:1500])
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    except ToolError as t:
        print(f"TOOL ERROR in {pid}: {t}")
        return 2
