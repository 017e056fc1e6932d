"""Machinery shared by all checks: building the drivers, running them contained, running TLC,
turning what TLC says into a verdict, and writing evidence."""
import hashlib, json, os, re, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(ROOT, ".build")
RUN = os.path.join(ROOT, ".run")
SPEC = os.path.join(ROOT, "spec")
HARNESS = os.path.join(ROOT, "harness")
EVID = os.path.join(ROOT, "evidence")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


class Violation(Exception):
    """what: one line; replay: a dict that is written to the replay file"""

    def __init__(self, what, replay):
        super().__init__(what)
        self.what, self.replay = what, replay


# ------------------------------------------------------------------ building

def tree_stamp():
    h = hashlib.sha256()
    files = []
    for base in (os.path.join(REPO, "src"),):
        for d, _, fs in os.walk(base):
            files += [os.path.join(d, f) for f in fs]
    files += [os.path.join(REPO, "Cargo.toml")]
    for f in sorted(files):
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()


def cargo_env():
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("CARGO_PROFILE") or k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"):
            del env[k]
    env["CARGO_TARGET_DIR"] = BUILD
    env["CARGO_NET_OFFLINE"] = "true"
    return env


def cargo_build(binary, target, env, cmd, args, out):
    os.makedirs(target, exist_ok=True)
    stamp, sf = tree_stamp(), os.path.join(target, "tree.stamp")
    old = open(sf).read() if os.path.exists(sf) else None
    env = dict(env, CARGO_TARGET_DIR=target)
    if old is not None and old != stamp:
        subprocess.run(cmd + ["clean", "--offline", "-p", "vec-collections"] + [a for a in args if not a.startswith("-Z")], cwd=HARNESS, env=env,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    with open(sf, "w") as f:
        f.write(stamp)
    p = subprocess.run(cmd + ["build", "--offline", "--locked"] + args + ["--bin", binary], cwd=HARNESS, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        i = re.search(r"^error", p.stdout, re.M)
        raise ToolError("building the driver failed:\n" + p.stdout[i.start() if i else -6000:][:6000])
    return os.path.join(target, out, binary)


def build(binary):
    return cargo_build(binary, BUILD, cargo_env(), ["cargo"], [], "debug")


def build_tsan(binary):
    """the same driver under the thread sanitizer, standard library included; None if that cannot be had here"""
    t = "x86_64-unknown-linux-gnu"
    try:
        exe = cargo_build(binary, os.path.join(BUILD, "tsan"), dict(cargo_env(), RUSTFLAGS="-Zsanitizer=thread"),
                          ["cargo", "+nightly"], ["-Zbuild-std", "--target", t], os.path.join(t, "debug"))
        p = subprocess.run([exe, "--help"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
        return None if b"ThreadSanitizer" in p.stdout else exe
    except (ToolError, OSError, subprocess.TimeoutExpired):
        return None


# ------------------------------------------------------------------ drivers

def drive(exe, what, d, seed, tier, extra=(), timeout=600):
    """runs a driver in its own scratch directory; a crash or hang of the code under test is a violation"""
    os.makedirs(d, exist_ok=True)
    cmd = [exe, "--dir", d, "--seed", str(seed), "--what", what] + (["--thorough"] if tier == "thorough" else []) + list(extra)
    try:
        p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace", timeout=timeout, env=dict(os.environ, TSAN_OPTIONS="halt_on_error=1 exitcode=66"))
        rc, out = p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        raise ToolError("driver %s did not finish within %d s" % (what, timeout))
    cur = os.path.join(d, "current.json")
    case = open(cur, errors="replace").read().split("\n\n")[0] if os.path.exists(cur) else None
    if rc == 0:
        return json.load(open(os.path.join(d, "stats.json")))
    if rc < 0 or rc in (97, 99, 134, 139):
        why = {97: "no progress (endless loop or deadlock)", 99: "memory safety violated"}.get(rc, "the process died with status %d" % rc)
        raise Violation("%s: %s while running %s" % (what, why, (case or "?")[:400]),
                        {"kind": "crash", "status": rc, "case": case, "cmd": cmd, "output": out[-3000:]})
    race = re.search(r"WARNING: ThreadSanitizer: (data race|heap-use-after-free)", out)
    if rc == 66 and race:
        raise Violation("%s: %s between threads that each use their own clone, while running %s" % (what, race.group(1), (case or "?")[:400]),
                        {"kind": "race", "case": case, "cmd": cmd, "output": out[race.start():][:6000]})
    raise ToolError("driver %s failed with %d:\n%s" % (what, rc, out[-4000:]))


def count_lines(f):
    with open(f, "rb") as fh:
        return sum(1 for _ in fh)


def get_line(f, n):
    with open(f) as fh:
        for i, l in enumerate(fh, 1):
            if i == n:
                return l.rstrip("\n")
    return None


# ------------------------------------------------------------------ TLC

def tlc(module, cfg, d, env=None, workers=4, timeout=800, args=(), heap="6g"):
    """one TLC run; returns a dict(rc, out, generated, distinct)"""
    os.makedirs(d, exist_ok=True)
    meta = os.path.join(d, "tlc-" + re.sub(r"\W", "_", cfg))
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4", "-Dtlc2.TLC.stopAfter=%d" % timeout,
           "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
           "-config", os.path.join(SPEC, cfg + ".cfg")] + list(args) + [os.path.join(SPEC, module + ".tla")]
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace", timeout=timeout + 30)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC on %s did not finish within %d s" % (cfg, timeout))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = p.stdout
    gen = dis = 0
    for m in re.finditer(r"([\d,]+) states generated.*?, ([\d,]+) distinct states found", out):
        gen, dis = int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))
    for m in re.finditer(r"Finished computing initial states: ([\d,]+) distinct state", out):
        if gen == 0:
            gen = dis = int(m.group(1).replace(",", ""))
    return dict(rc=p.returncode, out=out, generated=gen, distinct=dis, wall=time.time() - t, cfg=cfg, cmd=cmd)


def model(module, cfg, d, workers=4, timeout=800, env=None, args=()):
    """exhaustive check of a design model; its failure means the specification is wrong, not the code"""
    r = tlc(module, cfg, d, env=env, workers=workers, timeout=timeout, args=args)
    if r["rc"] != 0:
        raise ToolError("design model %s is not accepted by TLC (%d):\n%s" % (cfg, r["rc"], r["out"][-5000:]))
    return r


SPEC_EVAL = (10, 11, 12, 13, 75, 76, 77)


def judge(module, cfg, trace, d, env=None, workers=8, timeout=800, notes=None):
    """is everything recorded in `trace` allowed by the specification?"""
    e = {"TRACE": trace}
    e.update(env or {})
    r = tlc(module, cfg, d, env=e, workers=workers, timeout=timeout)
    if r["rc"] == 0:
        if r["distinct"] < 1:
            raise ToolError("TLC judged nothing for %s:\n%s" % (cfg, r["out"][-3000:]))
        return r
    if r["rc"] in SPEC_EVAL:
        ls = re.findall(r"^(?:/\\ )?l = (\d+)", r["out"], re.M)
        n = int(ls[-1]) if ls else None
        rec = get_line(trace, n) if n else None
        note = None
        if notes and n and os.path.exists(notes):
            for x in open(notes):
                if x.startswith("%d: " % n):
                    note = x.strip()
        state = r["out"]
        i = state.find("Error:")
        raise Violation("line %s of the recorded trace is not allowed by %s: %s%s" % (n, module, (rec or "?")[:700], ("  [variants: %s]" % note[:300]) if note else ""),
                        {"kind": "trace", "module": module, "cfg": cfg, "line": n, "record": rec, "note": note,
                         "env": env or {}, "context": context(trace, n), "tlc": state[i:i + 3000]})
    raise ToolError("TLC failed (%d) on %s:\n%s" % (r["rc"], cfg, r["out"][-5000:]))


def context(trace, n, back=80):
    """the recorded calls since the last reset, so that a history can be replayed"""
    if not n:
        return None
    lines = []
    with open(trace) as fh:
        for i, l in enumerate(fh, 1):
            if '"o":"reset"' in l:
                lines = []
            lines.append(l.rstrip("\n"))
            if i == n:
                break
    return lines[-back:] if len(lines) > 1 and '"o":"reset"' in lines[0] else None


# ------------------------------------------------------------------ running a check

class Run:
    def __init__(self, pid, tier, seed):
        self.id, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.dir = os.path.join(RUN, "%s-%s" % (pid, tier))
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.tlc = []
        self.stats = {}
        self.samples = []
        self.validated = 0
        self.assumptions = []
        self.known = []
        self.lock = threading.Lock()
        self.pool = ThreadPoolExecutor(6)

    def sub(self, name):
        return os.path.join(self.dir, name)

    # -- layers
    def model(self, module, cfg=None, workers=3, timeout=None, **kw):
        cfg = cfg or module
        if self.tier == "thorough" and os.path.exists(os.path.join(SPEC, cfg + "_thorough.cfg")):
            cfg = cfg + "_thorough"
        timeout = timeout or (3000 if self.tier == "thorough" else 300)
        r = model(module, cfg, self.sub("mc-" + cfg), workers=workers, timeout=timeout, **kw)
        with self.lock:
            self.tlc.append(dict(kind="design model", spec=cfg, states=r["distinct"], transitions=r["generated"], wall_s=round(r["wall"], 1)))
        return r

    def models(self, *names):
        """start design model runs in the background"""
        return [self.pool.submit(self.model, *(n if isinstance(n, tuple) else (n,))) for n in names]

    def drive(self, exe, what, extra=(), timeout=None, name=None):
        st = drive(exe, what, self.sub(name or what), self.seed, self.tier, extra, timeout or (3000 if self.tier == "thorough" else 400))
        with self.lock:
            self.stats[name or what] = st
        return st

    def judge(self, module, what, cfg=None, env=None, name=None, min_lines=1, workers=8, timeout=None):
        d = self.sub(name or what)
        trace = os.path.join(d, what + ".ndjson")
        n = count_lines(trace)
        if n < min_lines:
            raise ToolError("only %d lines in %s" % (n, trace))
        r = judge(module, cfg or module, trace, d, env=env, workers=workers, notes=os.path.join(d, "notes.json"),
                  timeout=timeout or (3000 if self.tier == "thorough" else 500))
        with self.lock:
            self.tlc.append(dict(kind="trace validation", spec=module, trace=what, states=r["distinct"], transitions=r["generated"], lines=n, wall_s=round(r["wall"], 1)))
            self.validated += n
            for k in (n // 3, (2 * n) // 3):
                l = get_line(trace, max(1, k))
                if l and len(self.samples) < 6:
                    self.samples.append(json.loads(l) if len(l) < 1500 else l[:1500])
        return r

    def generate(self, module, cfg, out, num, depth, env=None):
        """behaviours of the specification, one per line, as scripts for a driver"""
        e = {"OUT": out}
        e.update(env or {})
        if os.path.exists(out):
            os.unlink(out)
        os.makedirs(os.path.dirname(out), exist_ok=True)
        r = tlc(module, cfg, self.sub("gen-" + cfg), env=e, workers=1, timeout=300,
                args=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(self.seed)])
        if not os.path.exists(out) or count_lines(out) == 0:
            raise ToolError("TLC generated no behaviours from %s:\n%s" % (cfg, r["out"][-3000:]))
        with self.lock:
            self.tlc.append(dict(kind="behaviour generation", spec=cfg, behaviours=count_lines(out), wall_s=round(r["wall"], 1)))
        return out

    # -- outcome
    def evidence(self, violations):
        cov = dict(
            states=sum(t.get("states", 0) for t in self.tlc),
            transitions=sum(t.get("transitions", 0) for t in self.tlc),
            traces_validated_against_impl=self.validated,
            samples=self.samples or ["none: the run stopped early"],
            tlc_runs=self.tlc,
            driver=self.stats,
        )
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.id + ".json"), "w") as f:
            json.dump(dict(property=self.id, tier=self.tier, seed=self.seed, level="model_checking", coverage=cov,
                           assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=violations), f, indent=1)
            f.write("\n")


def known_findings():
    res = {}
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"open: property=(\S+) site=(\S+) (.*)", l)
            if m:
                res.setdefault(m.group(1), {})[m.group(2)] = m.group(3).strip()
    return res


def main(checks):
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    tier = "thorough" if tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED") or "1")
    run = Run(pid, tier, seed)
    try:
        checks[pid](run)
        code, msg = 0, None
    except Violation as v:
        rp = os.path.join(EVID, "replays", "%s-%s.json" % (pid, tier))
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        with open(rp, "w") as f:
            json.dump(dict(property=pid, what=v.what, seed=seed, tier=tier,
                           rerun="VERIF_SEED=%d python3 tools/check.py %s --tier %s" % (seed, pid, tier), **v.replay), f, indent=1)
            f.write("\n")
        print(v.what)
        code, msg = 1, "VIOLATION property=%s replay=%s" % (pid, rp)
    except ToolError as e:
        print("ERROR of the check: %s" % e)
        code, msg = 2, None
    except Exception as e:  # noqa
        import traceback
        traceback.print_exc()
        code, msg = 2, None
    run.evidence(1 if code == 1 else 0)
    for k in run.known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    if msg:
        print(msg)
    elif code == 0:
        print("OK property=%s tier=%s validated=%d tlc_states=%d wall=%.1fs" % (
            pid, tier, run.validated, sum(t.get("states", 0) for t in run.tlc), time.time() - run.t0))
        if not os.environ.get("KEEP"):
            shutil.rmtree(run.dir, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)
