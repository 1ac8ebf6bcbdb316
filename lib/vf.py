"""Shared driver of the checks: TLC runs, Go builds (overlay, optional statement-level
instrumentation), conformance bookkeeping, evidence and verdicts."""
import atexit, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
MOD = "github.com/solarisdb/solaris"
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
T0 = time.time()


class ToolError(Exception):
    """the machinery itself failed: the check ends with an error exit, never a verdict"""


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


_work = None


def workdir():
    global _work
    if _work is None:
        _work = tempfile.mkdtemp(prefix="vf-", dir="/tmp")
        atexit.register(lambda: shutil.rmtree(_work, ignore_errors=True))
    return _work


def sub(name):
    d = os.path.join(workdir(), name)
    os.makedirs(d, exist_ok=True)
    return d


def goenv():
    e = dict(os.environ)
    e.update(PATH="/opt/veriftools/go1.23.12/bin:" + e.get("PATH", ""), HOME="/root", GOTOOLCHAIN="local",
             GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", CGO_ENABLED="1",
             GOCACHE="/root/.cache/go-build", GOMODCACHE="/root/go/pkg/mod")
    return e


# ------------------------------------------------------------------ Go builds
def _modfile():
    d = sub("mod")
    for f in ("go.mod", "go.sum"):
        if not os.path.exists(os.path.join(d, f)):
            shutil.copy(os.path.join(REPO, f), d)
    return os.path.join(d, "go.mod")


_lock = threading.Lock()


def overlay(instrument=(), inject=(), vtime=()):
    """overlay: every file of /verif/harness/** appears as /repo/verifharness/**, and the non-test
    files of the packages in `instrument` are replaced by statement-instrumented copies."""
    rep = {}
    h = os.path.join(VERIF, "harness")
    for root, _, files in os.walk(h):
        for f in files:
            if f.endswith(".go"):
                p = os.path.join(root, f)
                rep[os.path.join(REPO, "verifharness", os.path.relpath(p, h))] = p
    if instrument:
        tool = _instr_tool()
        for pk in instrument:
            out = sub("instr/" + pk)
            files = [f for f in sorted(glob.glob(os.path.join(REPO, pk, "*.go")))
                     if not f.endswith("_test.go")]
            r = subprocess.run([tool, "-pkg", pk, "-out", out] + (["-vtime"] if pk in vtime else []) + files, capture_output=True, text=True)
            if r.returncode:
                raise ToolError("instrumentation of %s failed: %s" % (pk, r.stderr))
            for f in files:
                rep[f] = os.path.join(out, os.path.basename(f))
    for pk, f in inject:
        rep[os.path.join(REPO, pk, "verif_" + f)] = os.path.join(VERIF, "inject", f)
    key = hashlib.sha1(repr((sorted(instrument), sorted(inject), sorted(vtime))).encode()).hexdigest()[:8]
    fn = os.path.join(sub("ovl"), "overlay-%s.json" % key)
    with open(fn, "w") as f:
        json.dump({"Replace": rep}, f)
    return fn


_instr = None


def _instr_tool():
    global _instr
    with _lock:
        if _instr is None:
            out = os.path.join(sub("tool"), "instr")
            e = goenv()
            e["GOFLAGS"] = ""
            r = subprocess.run(["go", "build", "-o", out, "."], cwd=os.path.join(VERIF, "tools/instr"), env=e,
                               capture_output=True, text=True)
            if r.returncode:
                raise ToolError("building the instrumenter: " + r.stderr)
            _instr = out
    return _instr


def gobuild(pkg, instrument=(), race=False, tags="", inject=(), vtime=()):
    """builds /verif/harness/<pkg> inside the module of /repo's working tree; inject: (package, file of /verif/inject);
    vtime: instrumented packages in which the package time is replaced by a virtual clock"""
    ov = overlay(instrument, inject, vtime)
    name = pkg.replace("/", "_") + ("_i" if instrument else "") + ("_r" if race else "") + ("_" + tags if tags else "")
    out = os.path.join(sub("bin"), name)
    cmd = ["go", "build", "-overlay", ov, "-modfile", _modfile(), "-ldflags=-checklinkname=0", "-o", out]
    if race:
        cmd.append("-race")
    if tags:
        cmd += ["-tags", tags]
    cmd.append("./verifharness/" + pkg)
    t = time.time()
    r = subprocess.run(cmd, cwd=REPO, env=goenv(), capture_output=True, text=True)
    if r.returncode:
        raise ToolError("go build %s failed:\n%s" % (pkg, (r.stdout + r.stderr)[-4000:]))
    log("built %s in %.1fs" % (name, time.time() - t))
    return out


class HarnessDied(Exception):
    def __init__(self, rc, err):
        self.rc, self.err = rc, err


def run(cmd, timeout, stdin=None, env=None, check=True, cwd=None):
    """runs a harness in its own scratch TMPDIR; returns (rc, stdout, stderr)"""
    e = goenv()
    td = tempfile.mkdtemp(prefix="run-", dir=workdir())
    e["TMPDIR"] = td
    e.setdefault("GOTRACEBACK", "all")
    e["VERIF_SEED"] = str(SEED)
    if env:
        e.update(env)
    try:
        p = subprocess.Popen(cmd, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=e, cwd=cwd or td,
                             start_new_session=True, errors="replace")
        try:
            o, er = p.communicate(stdin, timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            o, er = p.communicate()
            raise ToolError("harness %s timed out after %ss; stderr tail: %s" % (cmd[0], timeout, er[-1500:]))
    finally:
        shutil.rmtree(td, ignore_errors=True)
    if check and p.returncode != 0:
        raise HarnessDied(p.returncode, er)
    return p.returncode, o, er


def run_real(ck, cmd, items, timeout, env=None):
    """runs a replay harness over JSON items and returns its JSON output lines; a crash of the code under test (a Go
    panic or fatal error outside the harness's own guard) is a violation of the property being checked"""
    try:
        _, o, _ = run(cmd, timeout, stdin="\n".join(json.dumps(x, separators=(",", ":")) for x in items) + "\n", env=env)
    except HarnessDied as ex:
        m = re.search(r"^(panic: .*|fatal error: .*)$", ex.err, re.M)
        if ex.rc == 2 and m and "goroutine" in ex.err and "out of memory" not in ex.err:
            st = ex.err[ex.err.find(m.group(0)):]
            # the failing goroutine must be inside the code under test
            if MOD + "/" in re.sub(re.escape(MOD) + r"/verifharness\S*", "", st.split("\n\ngoroutine", 2)[0] + st[:3000]):
                ck.violation("the process crashed: " + m.group(0), dict(stack=st[:6000]), key="crash")
                return None
        raise ToolError("harness %s failed rc=%s: %s" % (cmd[0], ex.rc, ex.err[-3000:]))
    return [json.loads(l) for l in o.splitlines() if l.strip()]


# ------------------------------------------------------------------ TLC
def _tlc(module, cfg, extra, timeout, env=None, mem="3g", workers="auto", dfs=False):
    md = tempfile.mkdtemp(prefix="tlc-", dir=workdir())
    mpath = os.path.join(SPEC, module + ".tla")
    jopt = ["-XX:+UseParallelGC" if workers == "auto" else "-XX:+UseSerialGC", "-Xmx" + mem,
            "-Xss64m", "-Djava.io.tmpdir=" + md, "-DTLA-Library=" + SPEC]
    if dfs:
        jopt.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
    cmd = ["java"] + jopt + ["-cp", JAR, "tlc2.TLC", "-metadir", md, "-nowarning", "-noGenerateSpecTE",
                             "-workers", workers, "-config", cfg if os.path.isabs(cfg) else os.path.join(SPEC, cfg)] + extra + [mpath]
    e = dict(os.environ)
    if env:
        e.update(env)
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=e, cwd=md)
    except subprocess.TimeoutExpired as ex:
        o = ex.stdout or b""
        raise ToolError("TLC %s timed out (%ss): %s" % (module, timeout, o[-1500:]))
    finally:
        shutil.rmtree(md, ignore_errors=True)
    return p.returncode, p.stdout + p.stderr


_stat = re.compile(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left")


def model_check(module, cfg, timeout=300, extra=(), mem="6g", workers="auto", env=None):
    """exhaustive TLC run of a configuration of the specification; the specification itself must satisfy its
    properties (an error here is an error of the machinery, not a verdict on the code)."""
    t = time.time()
    rc, out = _tlc(module, cfg, list(extra), timeout, mem=mem, workers=workers, env=env)
    m = _stat.findall(out)
    if rc != 0 or not m or m[-1][2] != "0":
        raise ToolError("specification check %s/%s failed rc=%s\n%s" % (module, cfg, rc, tlc_error(out)))
    gen, dist = int(m[-1][0]), int(m[-1][1])
    log("TLC %s/%s: %d states, %d distinct, %.1fs" % (module, cfg, gen, dist, time.time() - t))
    return dict(module=module, cfg=cfg, transitions=gen, states=dist, wall_s=round(time.time() - t, 1))


def generate(module, cfg, num, depth, timeout=300, seed=None, env=None, mem="3g"):
    """behaviours of the specification, printed as JSON by the generator's Emit invariant"""
    t = time.time()
    e = dict(env or {})
    rc, out = _tlc(module, cfg, ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed",
                                 str(SEED if seed is None else seed), "-deadlock"], timeout, env=e, workers="1", mem=mem)
    res = []
    for line in out.splitlines():
        if line.startswith('"') and line.endswith('"'):
            try:
                res.append(json.loads(json.loads(line)))
            except ValueError:
                pass
    if rc != 0 or not res:
        raise ToolError("behaviour generation %s/%s failed rc=%s (%d behaviours)\n%s" % (module, cfg, rc, len(res), tlc_error(out)))
    log("TLC generated %d behaviours from %s/%s in %.1fs" % (len(res), module, cfg, time.time() - t))
    return res


def enumerate_states(module, cfg, timeout=300, env=None, mem="4g"):
    """every initial state of the module, printed as JSON by its Emit invariant: an exhaustive set of scenarios"""
    t = time.time()
    rc, out = _tlc(module, cfg, ["-deadlock"], timeout, env=env, workers="1", mem=mem)
    res = [json.loads(json.loads(l)) for l in out.splitlines() if l.startswith('"') and l.endswith('"')]
    if rc != 0 or not res:
        raise ToolError("enumeration %s/%s failed rc=%s (%d)\n%s" % (module, cfg, rc, len(res), tlc_error(out)))
    log("TLC enumerated %d scenarios of %s/%s in %.1fs" % (len(res), module, cfg, time.time() - t))
    return res


def tlc_error(out):
    """the error part of TLC's output, without the long state dumps"""
    i = out.find("Error:")
    if i < 0:
        return out[-1500:]
    return out[i:i + 1200] + "\n...\n" + out[max(i + 1200, len(out) - 1200):]


def unexplained(trace, pos):
    """a trace that the specification cannot follow any further, and no single event is to blame"""
    e = trace[pos - 1] if 0 < pos <= len(trace) else {}
    if isinstance(e, dict) and "op" in e:
        return '"the outcome of a call (%s: %s) fits no order of the calls"' % (e["op"], e.get("err") or "success")
    return ""


def validate(module, cfg, traces, timeout=600, mem="4g", env=None, dfs=False, shards=1, allow_empty=False):
    """checks recorded traces against the specification. Each trace is a list of events. The trace spec
    keeps in TLC register t the furthest position reached in trace t and prints
    <<"REACHED", t, pos, len>> for each in its POSTCONDITION; a trace is accepted iff pos = len + 1."""
    if not traces:
        if allow_empty:
            return dict(accepted=0, rejected=[], states=0, transitions=0)
        raise ToolError("no traces to validate")
    t = time.time()
    shards = max(1, min(shards, len(traces)))
    parts = [list(range(i, len(traces), shards)) for i in range(shards)]
    res = [None] * shards
    errs = []

    def one(k):
        try:
            fn = os.path.join(workdir(), "traces-%s-%d-%d.ndjson" % (module, k, threading.get_ident()))
            with open(fn, "w") as f:
                for i in parts[k]:
                    f.write(json.dumps(traces[i], separators=(",", ":")) + "\n")
            e = dict(env or {})
            e["TRACES"] = fn
            rc, out = _tlc(module, cfg, ["-deadlock"], timeout, env=e, workers="1", mem=mem, dfs=dfs)
            os.unlink(fn)
            reach = {}
            for m in re.finditer(r'<<"REACHED", (\d+), (\d+), (\d+)>>', out):
                reach[int(m.group(1))] = (int(m.group(2)), int(m.group(3)))
            bad = {}
            for m in re.finditer(r'<<\s*"BAD",\s*(\d+),\s*(\d+),\s*(.*?)\s*>>\n', out, re.S):
                bad.setdefault(int(m.group(1)), {}).setdefault(int(m.group(2)), m.group(3))
            if len(reach) != len(parts[k]):
                errs.append("trace validation %s/%s rc=%s: %d of %d traces reported\n%s" % (
                    module, cfg, rc, len(reach), len(parts[k]), tlc_error(out)))
                return
            st = _stat.findall(out)
            res[k] = (reach, bad, int(st[-1][0]) if st else 0, int(st[-1][1]) if st else 0)
        except Exception as ex:
            errs.append(repr(ex))
    ths = [threading.Thread(target=one, args=(k,)) for k in range(shards)]
    [x.start() for x in ths]
    [x.join() for x in ths]
    if errs:
        raise ToolError(errs[0])
    rej = []
    gen = dist = 0
    for k in range(shards):
        reach, bad, g, d = res[k]
        gen += g
        dist += d
        for j, (pos, ln) in reach.items():
            if pos != ln + 1:
                why = bad.get(j, {}).get(pos) or unexplained(traces[parts[k][j - 1]], pos)
                rej.append(dict(trace=parts[k][j - 1], pos=pos, why=why))
    log("TLC validated %d traces with %s: %d rejected, %d states, %.1fs" % (len(traces), module, len(rej), gen, time.time() - t))
    return dict(accepted=len(traces) - len(rej), rejected=sorted(rej, key=lambda r: r["trace"]), states=dist, transitions=gen)


# ------------------------------------------------------------------ verdicts
class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], spec_runs=[])
        self.assumptions = []
        self.violations = []
        self.known = load_known(pid)
        self.known_hit = {}

    def spec(self, r):
        self.cov["states"] += r["states"]
        self.cov["transitions"] += r["transitions"]
        self.cov["spec_runs"].append(r)

    def add(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, s, limit=4):
        if len(self.cov["samples"]) < limit:
            self.cov["samples"].append(s)

    def traces(self, n):
        self.cov["traces_validated_against_impl"] += n

    def violation(self, what, replay=None, key=None):
        """a property violation seen in the real code. `key` identifies the input/history for known findings."""
        if key is not None and key in self.known:
            self.known_hit[key] = self.known_hit.get(key, 0) + 1
            return
        self.violations.append((what, replay))
        log("VIOLATION candidate:", what)

    def finish(self):
        for k, what in self.known.items():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, what))
        ev = dict(property=self.pid, tier=TIER, seed=SEED, level=self.level, coverage=self.cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - T0, 1), violations=len(self.violations))
        if self.known:
            ev["coverage"]["known_findings_hit"] = self.known_hit
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        if not self.violations:
            log("ok: property %s held on everything explored" % self.pid)
            return 0
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        for n, (what, rep) in enumerate(self.violations[:int(os.environ.get("REPLAYS", "3"))]):
            fn = os.path.join(rd, "%s-%d-%d.json" % (self.pid, SEED, n))
            with open(fn, "w") as f:
                json.dump(dict(property=self.pid, seed=SEED, tier=TIER, what=what, replay=rep), f, indent=1, default=str)
            print("# " + str(what).replace("\n", " | ")[:600])
            print("VIOLATION property=%s replay=%s" % (self.pid, fn))
        return 1


def load_known(pid):
    res = {}
    fn = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(fn):
        for line in open(fn):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                res[m.group(2)] = m.group(3)
    return res


def parallel(*fns):
    """runs thunks in parallel, returns their results; the first exception is re-raised"""
    res, errs = [None] * len(fns), []

    def w(i):
        try:
            res[i] = fns[i]()
        except BaseException as ex:
            errs.append(ex)
    ths = [threading.Thread(target=w, args=(i,)) for i in range(len(fns))]
    [t.start() for t in ths]
    [t.join() for t in ths]
    if errs:
        raise errs[0]
    return res


def main(pid, fn, level="model_checking"):
    ck = Check(pid, level)
    try:
        fn(ck)
        sys.exit(ck.finish())
    except ToolError as ex:
        print("ERROR (machinery): %s" % ex, file=sys.stderr)
        sys.exit(3)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(3)
