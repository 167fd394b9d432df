"""Shared machinery of the checks: building /repo's current tree, running enumerated
cases in isolated worker processes, reporting violations, writing evidence."""
import contextlib
import hashlib
import json
import os
import pathlib
import pickle
import select
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = pathlib.Path(__file__).resolve().parent.parent
# VV_REPO/VV_BUILD: development only (trying a change in a scratch clone); the registered commands never set them
REPO = pathlib.Path(os.environ.get("VV_REPO", "/repo"))
BUILD = pathlib.Path(os.environ.get("VV_BUILD", VERIF / "build"))
PY = "/opt/vp/venv/bin/python"
NPROC = max(1, os.cpu_count() or 1)
sys.dont_write_bytecode = True
T0 = time.time()
os.environ.setdefault("OMP_WAIT_POLICY", "passive")
os.environ.setdefault("GOMP_SPINCOUNT", "0")
for _v in ("OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_v, "1")
os.environ.setdefault("JAX_PLATFORMS", "cpu")


class CheckError(Exception):
    """The check itself could not give an answer (exit 2)."""


def log(*a):
    print(f"[{time.time() - T0:7.1f}s]", *a, flush=True)


# ---------------------------------------------------------------- building
def _prepare_eigen(dst):
    if (dst / "Eigen" / "Core").exists():
        return
    tmp = pathlib.Path(tempfile.mkdtemp(dir=dst.parent))
    shutil.copytree("/usr/include/eigen3", tmp / "e", symlinks=True)
    f = tmp / "e/Eigen/src/Core/StlIterators.h"
    t = f.read_text()
    a = t.index("class pointer_based_stl_iterator")
    b = t.index("typedef std::random_access_iterator_tag iterator_category;", a)
    t = (t[:b] + "typedef typename std::conditional<int(internal::traits<XprType>::InnerStrideAtCompileTime)==1, "
         "std::contiguous_iterator_tag, std::random_access_iterator_tag>::type iterator_concept;\n  " + t[b:])
    f.write_text(t)
    with contextlib.suppress(OSError):
        os.rename(tmp / "e", dst)
    shutil.rmtree(tmp, ignore_errors=True)


def build(targets, variant="plain"):
    """Build targets from /repo's working tree; returns the build directory."""
    d = BUILD / variant
    d.mkdir(parents=True, exist_ok=True)
    _prepare_eigen(d / "eigen")
    lock = open(d / ".lock", "w")
    import fcntl
    fcntl.flock(lock, fcntl.LOCK_EX)
    cmds = [["cmake", "-G", "Ninja", f"-DVARIANT={variant}", f"-DREPO={REPO}", "-DCMAKE_BUILD_TYPE=Release", str(VERIF / "cmake")],
            ["ninja", *targets]]
    if (d / "build.ninja").exists():
        cmds = cmds[1:]
    for c in cmds:
        r = subprocess.run(c, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            sys.stdout.write(r.stdout[-8000:])
            raise CheckError(f"build failed: {c}")
    log("built", targets, variant)
    return d


def load_vmecpp(variant="plain"):
    """Import the Python package from /repo with the freshly built extension module."""
    import importlib.util
    if "vmecpp.cpp._vmecpp" in sys.modules:
        import vmecpp
        return vmecpp
    so = BUILD / variant / "_vmecpp.so"
    sys.path.insert(0, str(REPO / "src"))
    spec = importlib.util.spec_from_file_location("vmecpp.cpp._vmecpp", so)
    m = importlib.util.module_from_spec(spec)
    sys.modules["vmecpp.cpp._vmecpp"] = m
    spec.loader.exec_module(m)
    import vmecpp
    assert str(REPO) in vmecpp.__file__, vmecpp.__file__
    return vmecpp


def load_ext(name, variant="plain"):
    """Load a py_harness module."""
    import importlib.util
    spec = importlib.util.spec_from_file_location(name, BUILD / variant / f"{name}.so")
    m = importlib.util.module_from_spec(spec)
    sys.modules[name] = m
    spec.loader.exec_module(m)
    return m


def load_vmecpp_pure():
    """Import the Python package with a stand-in for the native module (pure-Python parts only)."""
    import types
    sys.path.insert(0, str(REPO / "src"))

    class _Stub(types.ModuleType):
        def __getattr__(self, n):
            if n.startswith("__"):
                raise AttributeError(n)
            return type(n, (), {})
    sys.modules["vmecpp.cpp._vmecpp"] = _Stub("vmecpp.cpp._vmecpp")
    import vmecpp
    return vmecpp


# ---------------------------------------------------------------- isolated parallel map
class Res:
    __slots__ = ("kind", "value")   # kind: ok | exc | crash | hang

    def __init__(self, kind, value):
        self.kind, self.value = kind, value

    def __repr__(self):
        return f"{self.kind}: {str(self.value)[:1500]}"


def _worker(fn, init, rd, wr):
    ctx = init() if init else None
    f = os.fdopen(rd, "rb")
    while True:
        h = f.read(4)
        if len(h) < 4:
            os._exit(0)
        case = pickle.loads(f.read(struct.unpack("I", h)[0]))
        try:
            out = ("ok", fn(ctx, case) if init else fn(case))
        except BaseException as e:  # noqa: BLE001
            out = ("exc", f"{type(e).__name__}: {e}\n{traceback.format_exc()[-3000:]}")
        b = pickle.dumps(out)
        os.write(wr, struct.pack("I", len(b)))
        v = memoryview(b)
        while v:
            v = v[os.write(wr, v):]


class _W:
    def __init__(self, fn, init):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.err = tempfile.TemporaryFile()
        sys.stdout.flush()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.setpgid(0, 0)
                os.close(w1)
                os.close(r2)
                os.dup2(self.err.fileno(), 2)
                os.dup2(self.err.fileno(), 1)
                _worker(fn, init, r1, w2)
            except BaseException:  # noqa: BLE001
                traceback.print_exc()
            finally:
                sys.stderr.flush()
                os._exit(97)
        os.close(r1)
        os.close(w2)
        self.w, self.r = w1, r2
        self.case = None
        self.buf = b""

    def send(self, i, case, limit):
        self.case, self.t0, self.limit, self.buf = i, time.time(), limit, b""
        b = pickle.dumps(case)
        with contextlib.suppress(BrokenPipeError):
            b = struct.pack("I", len(b)) + b
            while b:
                b = b[os.write(self.w, b):]

    def kill(self):
        with contextlib.suppress(OSError):
            os.killpg(self.pid, signal.SIGKILL)
        with contextlib.suppress(OSError):
            os.kill(self.pid, signal.SIGKILL)
        _, st = os.waitpid(self.pid, 0)
        os.close(self.w)
        os.close(self.r)
        self.err.seek(0)
        e = self.err.read()[-3000:].decode("utf8", "replace")
        self.err.close()
        return st, e


def pmap(cases, fn, init=None, timeout=120, nproc=None, retry_hang=True):
    """Run fn(ctx, case) (ctx=init()) or fn(case) for all cases in isolated processes.
    Returns a list of Res in case order. A worker that dies gives kind 'crash'; one that
    exceeds the timeout is re-run alone with 3x the limit before it is called a 'hang'."""
    cases = list(cases)
    res = [None] * len(cases)
    nproc = min(nproc or NPROC, max(1, len(cases)))
    signal.signal(signal.SIGPIPE, signal.SIG_IGN)
    todo = list(range(len(cases)))[::-1]
    ws, hung = [], []
    ncrash = 0

    def spawn():
        w = _W(fn, init)
        ws.append(w)
        return w

    def feed(w):
        if todo:
            i = todo.pop()
            w.send(i, cases[i], timeout)
        else:
            ws.remove(w)
            w.kill()
    for _ in range(nproc):
        w = spawn()
        i = todo.pop()
        w.send(i, cases[i], timeout + 60)
    while ws:
        rl, _, _ = select.select([w.r for w in ws], [], [], 0.5)
        for w in list(ws):
            if w.r in rl:
                b = os.read(w.r, 1 << 20)
                if not b:
                    st, e = w.kill()
                    ws.remove(w)
                    sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else -os.WEXITSTATUS(st)
                    if sig == -97 and "import" in e and "Error" in e:
                        raise CheckError("worker start failed: " + e)
                    res[w.case] = Res("crash", f"signal/exit {sig}: {e}")
                    ncrash += 1
                    if ncrash > 200 or (sig == -97 and ncrash > 8):   # clearly broken: do not spend the budget on it
                        for i in todo:
                            res[i] = Res("crash", "not run: too many crashing cases; last: " + e)
                        todo.clear()
                    if todo:
                        n = spawn()
                        i = todo.pop()
                        n.send(i, cases[i], timeout + 60)
                    continue
                w.buf += b
                if len(w.buf) >= 4:
                    n = struct.unpack("I", w.buf[:4])[0]
                    if len(w.buf) >= 4 + n:
                        res[w.case] = Res(*pickle.loads(w.buf[4:4 + n]))
                        feed(w)
            elif time.time() - w.t0 > w.limit:
                st, e = w.kill()
                ws.remove(w)
                hung.append(w.case)
                res[w.case] = Res("hang", f"no answer within {w.limit} s: {e}")
                if len(hung) > 24:      # clearly hanging code: do not spend the budget on it
                    for i in todo:
                        res[i] = Res("hang", "not run: too many hanging cases")
                    todo.clear()
                if todo:
                    n = spawn()
                    i = todo.pop()
                    n.send(i, cases[i], timeout + 60)
    if retry_hang and hung:
        for i in hung[:3]:
            r = pmap([cases[i]], fn, init, timeout=3 * timeout, nproc=1, retry_hang=False)[0]
            res[i] = r
    return res


# ---------------------------------------------------------------- reporting
class Check:
    def __init__(self, pid, level, rule, assumptions=()):
        self.pid, self.level, self.rule = pid, level, rule
        self.assumptions = list(assumptions)
        self.violations, self.known = [], []
        self.evaluations = 0
        self.outcomes = {}
        self.samples = []
        self.cov = {}
        self.exhaustive = True
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        kf = VERIF / "known_findings.json"
        self.findings = [k for k in json.loads(kf.read_text())["findings"]
                         if k["property"] == pid and k["status"] == "known"] if kf.exists() else []

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(str(s)[:400])

    def seen(self, outcome):
        self.evaluations += 1
        k = str(outcome)[:120]
        self.outcomes[k] = self.outcomes.get(k, 0) + 1

    def fail(self, key, detail, replay=None):
        """Report a violation. `key` identifies the failing case; a finding listed in
        known_findings.json matches by exact key (or key prefix ending with '*')."""
        key = str(key)
        for k in self.findings:
            if any(key == m or (m.endswith("*") and key.startswith(m[:-1])) for m in k["match"]):
                if k["id"] not in [x[0] for x in self.known]:
                    self.known.append((k["id"], k["what"]))
                return
        self.violations.append({"key": key, "detail": str(detail)[:3000], "replay": replay})

    def expect(self, cond, key, detail, replay=None):
        if not cond:
            self.fail(key, detail, replay)
        return cond

    def finish(self):
        ev = VERIF / "evidence"
        ev.mkdir(exist_ok=True)
        for kid, what in self.known:
            print(f"KNOWN-FINDING: property={self.pid} {kid}: {what}")
        paths = []
        rd = ev / "replay"
        first, rest, ks = [], [], set()
        for v in self.violations:                     # one of each kind first
            (rest if v["key"] in ks else first).append(v)
            ks.add(v["key"])
        self.violations = first + rest
        for i, v in enumerate(self.violations[:20]):
            rd.mkdir(exist_ok=True)
            p = rd / f"{self.pid}-{i}.json"
            p.write_text(json.dumps({"property": self.pid, **v}, indent=1, default=str))
            paths.append(str(p))
        cov = {"evaluations": self.evaluations, "distinct_nontrivial": len(self.outcomes),
               "rule": self.rule, "samples": self.samples or list(self.outcomes)[:8],
               "exhaustive": self.exhaustive, **self.cov}
        doc = {"property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1")),
               "level": self.level, "coverage": cov, "assumptions": self.assumptions,
               "wall_s": round(time.time() - T0, 2), "violations": len(self.violations)}
        (ev / f"{self.pid}.json").write_text(json.dumps(doc, indent=1, default=str))
        log(f"{self.pid} tier={self.tier} evaluations={self.evaluations} distinct={len(self.outcomes)} "
            + " ".join(f"{k}={v}" for k, v in self.cov.items() if isinstance(v, (int, float))))
        if self.violations:
            for v in self.violations[:20]:
                print("  violated:", v["key"][:200], "|", v["detail"][:400].replace("\n", " "))
            print(f"VIOLATION property={self.pid} replay={paths[0]}")
            return 1
        print(f"OK property={self.pid}")
        return 0


def main(fn, *a, **k):
    """Entry point of a check: fn() -> Check."""
    try:
        rc = fn(*a, **k).finish()
    except CheckError as e:
        print("ERROR:", e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)


@contextlib.contextmanager
def scratch(prefix="vscratch"):
    d = tempfile.mkdtemp(prefix=prefix, dir="/tmp")
    try:
        yield pathlib.Path(d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_harness(chk, exe, args=(), timeout=600, env=None, label="", stdin=None):
    """Run an enumeration harness (harness/vh.h protocol) and merge its report into chk."""
    e = dict(os.environ, ASAN_OPTIONS="abort_on_error=1:detect_leaks=0:handle_abort=0:handle_segv=0:allocator_may_return_null=1",
             UBSAN_OPTIONS="abort_on_error=1:print_stacktrace=1", **(env or {}))
    def once(tmo):
        try:
            return subprocess.run([str(exe), *map(str, args)], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                  text=True, errors="replace", timeout=tmo, env=e, stdin=subprocess.DEVNULL)
        except subprocess.TimeoutExpired as x:
            return x
    r = once(timeout)
    if isinstance(r, subprocess.TimeoutExpired):
        out = r.stdout or b""
        out = out if isinstance(out, str) else out.decode("utf8", "replace")
        chk.fail(f"{label}hang", f"harness {exe} {args} did not finish in {timeout} s; output {out[-500:]}",
                 {"cmd": [str(exe), *map(str, args)]})
        return None
    done, nums = False, {}
    crash = None
    for ln in r.stdout.splitlines():
        if ln.startswith("V "):
            k, _, d = ln[2:].partition("\t")
            chk.fail(label + k, d, {"cmd": [str(exe), *map(str, args)], "case": k})
        elif ln.startswith("S "):
            chk.sample(label + ln[2:])
        elif ln.startswith("O "):
            k, _, n = ln[2:].rpartition("\t")
            chk.evaluations += int(n)
            chk.outcomes[label + k] = chk.outcomes.get(label + k, 0) + int(n)
        elif ln.startswith("N "):
            k, v = ln[2:].split()
            nums[k] = float(v)
        elif ln.startswith("CRASH "):
            crash = ln
        elif ln == "DONE":
            done = True
    if not done:
        if crash is None and r.returncode >= 0 and r.returncode != 1 and "terminate called" not in r.stderr:
            raise CheckError(f"harness {exe} {args} exited {r.returncode} without an answer: {r.stdout[-500:]} {r.stderr[-2000:]}")
        key = crash.split(" ", 2)[2] if crash and len(crash.split(" ", 2)) > 2 else "unknown"
        chk.fail(f"{label}crash:{key}", f"{crash} rc={r.returncode} stderr={r.stderr[-1800:]}",
                 {"cmd": [str(exe), *map(str, args)], "case": key})
    return nums
