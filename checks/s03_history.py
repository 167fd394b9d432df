"""S03: the outcome of a run does not depend on what ran before in the process.
All histories of up to k runs over an alphabet of run kinds (as windows of de Bruijn sequences, and all pairs in
fresh processes), each outcome compared with the same run alone in a fresh process; inputs, restart states, field
tables and earlier results must stay untouched.  Uninitialised memory is exposed by filling fresh memory with two
different byte patterns."""
import concurrent.futures as cf
import json
import os
import pathlib
import pickle
import signal
import subprocess
import sys
import tempfile
import numpy as np
import vlib
import equil as E

TH = os.environ.get("VERIF_TIER") == "thorough"
OPS = "abcdefghij"


def digest(x):
    """bytes of everything reachable that a caller can see"""
    if hasattr(x, "model_fields") or hasattr(type(x), "model_fields"):
        return tuple((k, digest(getattr(x, k))) for k in type(x).model_fields)
    if isinstance(x, np.ndarray):
        return (x.dtype.str, x.shape, x.tobytes())
    if isinstance(x, (list, tuple)):
        return tuple(digest(y) for y in x)
    if isinstance(x, (int, float, str, bool, type(None), np.generic)):
        return repr(x)
    return tuple(sorted((k, digest(getattr(x, k))) for k in dir(x) if not k.startswith("_") and not callable(getattr(x, k))))


class World:
    def __init__(self, refdir):
        self.v = v = vlib.load_vmecpp()
        E.quiet()
        K = dict(return_outputs_even_if_not_converged=True)
        fx, fr = E.fixed(v), E.free(v)
        self.restart = None
        p = refdir / "restart.pkl"
        if p.exists():
            self.restart = pickle.loads(p.read_bytes())
        self.op = {
            "a": (E.one(fx["sol"], 9, 1e-9), {}),                                                   # plain success
            "b": (E.one(fx["ela"], 9, 1e-30, 12, **K), dict(max_threads=2)),                        # kept without convergence, two threads
            "c": (E.one(fx["sol"], 6, 1e-30, 200, delt=5.0, iteration_style="parvmec"), {}),        # gives up: error
            "d": (E.derive(fx["sol"], gamma=1.0), {}),                                              # refused input
            "e": (E.one(fx["cth"], 7, 1e-10), dict(restart_from=self.restart)),                     # hot restart
            "f": (E.one(fr["solf"][0], 9, 1e-6), dict(magnetic_field=fr["solf"][1])),               # free boundary
            "g": (E.one(fx["sol"], 51, 1e-30, 10000000, nstep=1, **K), {}),                         # interrupted by the user
            "h": (E.derive(E.stages(fx["ell"], [3, 5, 9], [1e-6, 1e-6, 1e-9], [300, 300, 600]), raxis_c=fx["ell"].raxis_c * 1.08), dict(verbose=True)),  # stages, axis re-guess, printing
            "i": (E.one(fr["cthfa"][0], 5, 1e-30, 25, **K), dict(magnetic_field=fr["cthfa"][1], max_threads=3)),     # free boundary, asymmetric, three threads
            "j": (E.one(fx["li"], 7, 1e-8, mpol=4, ntor=2, raxis_c=fx["li"].raxis_c[:3], zaxis_s=fx["li"].zaxis_s[:3], **K), dict(max_threads=None)),  # default threads
        }

    def run(self, o):
        """('ok', fields, output) or ('err', type, text)"""
        i, kw = self.op[o]
        kw = dict(max_threads=1, verbose=False) | kw
        before = (digest(i), digest(kw.get("restart_from")), digest(kw.get("magnetic_field")))
        if o == "g":
            def stop(*_):
                raise KeyboardInterrupt
            old = signal.signal(signal.SIGALRM, stop)
            signal.setitimer(signal.ITIMER_REAL, 0.03)
        try:
            r = self.v.run(i, **kw)
            out = ("ok", fields(r), r)
        except KeyboardInterrupt:
            out = ("err", "KeyboardInterrupt", "")
        except Exception as e:  # noqa: BLE001
            out = ("err", type(e).__name__, str(e)[:300] if o != "g" else "")
        finally:
            if o == "g":
                signal.setitimer(signal.ITIMER_REAL, 0)
                signal.signal(signal.SIGALRM, old)
        after = (digest(i), digest(kw.get("restart_from")), digest(kw.get("magnetic_field")))
        touched = [n for n, x, y in zip(("input", "restart state", "field table"), before, after) if x != y]
        return out, touched


def fields(r):
    f = E.wout_fields(r.wout)
    for part in ("threed1_volumetrics", "mercier", "jxbout"):
        x = getattr(r, part, None)
        if x is None:
            continue
        for k in type(x).model_fields:
            y = getattr(x, k)
            if isinstance(y, (int, float, np.ndarray)) and not isinstance(y, bool):
                f[part + "." + k] = np.asarray(y, float)
    return f


def compare(ref, got, exact):
    if ref[0] != got[0]:
        return f"{got[:1] + got[1:] if got[0] == 'err' else 'a result'} instead of {ref[1:] if ref[0] == 'err' else 'a result'}"
    if ref[0] == "err":
        return None if ref[1:] == got[1:] else f"{got[1:]} instead of {ref[1:]}"
    if set(ref[1]) != set(got[1]):
        return f"other fields: {set(ref[1]) ^ set(got[1])}"
    if exact:                          # same code, same inputs, one thread: nothing may differ
        for k in ref[1]:
            x, y = ref[1][k], got[1][k]
            if x.shape != y.shape or not np.array_equal(np.isnan(x), np.isnan(y)):
                return f"{k} differs in shape or validity"
            s = E.mx(x)
            with np.errstate(invalid="ignore"):
                d = E.mx(np.where(np.isfinite(x), x - y, 0.0))
            if d > 1e-9 * s:
                if k in E.SCALE and d <= 1e-9 * E.SCALE[k](ref[1]):
                    continue
                return f"{k} differs by {d:.3e} (size {s:.3e})"
        return None
    a, b = [{k: x for k, x in r[1].items() if "." not in k} for r in (ref, got)]
    d = E.fdiff(None, None, a, b)
    return None if d[0] < 1e-6 else f"{d[1]} differs by {d[0]:.2e}"


def worker(refdir, seq, out):
    """runs the sequence in this process, compares each outcome with the reference"""
    refdir = pathlib.Path(refdir)
    w = World(refdir)
    sys.stdout.flush()
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    res, kept = [], []
    for n, o in enumerate(seq):
        r, touched = w.run(o)
        hist = seq[max(0, n - 4):n + 1]
        if refdir.joinpath("ref_" + o).exists():
            ref = pickle.loads(refdir.joinpath("ref_" + o).read_bytes())
            d = compare(ref, r[:2] if r[0] == "ok" else r, o not in "bij")
            if d:
                res.append((hist, o, d))
        elif len(seq) == 1:
            refdir.joinpath("ref_" + o).write_bytes(pickle.dumps(r[:2] if r[0] == "ok" else r))
        for t in touched:
            res.append((hist, o, f"the run changed the {t} that the caller passed"))
        for h, x, dg in kept:
            if digest(x) != dg:
                res.append((hist, o, f"the run changed the result returned earlier (history {h})"))
        if r[0] == "ok":
            kept = (kept + [(hist, r[2], digest(r[2]))])[-2:]
    pathlib.Path(out).write_text(json.dumps(res))


def worker_fill(out, part, parts):
    """outcomes of many short runs (for comparing memory fill patterns)"""
    v = vlib.load_vmecpp()
    E.quiet()
    e = {k: (i, None) for k, i in E.fixed(v).items()} | E.free(v)
    res, n = {}, 0
    for name, (j, t) in e.items():
        lads = [([5], [1]), ([5], [2]), ([6], [30]), ([3, 7], [1, 1]), ([3, 7], [100, 50])]
        for ns, ni in lads:
            for th in (1, 2):
                n += 1
                if n % parts != part:
                    continue
                i = E.stages(E.derive(j, return_outputs_even_if_not_converged=True), ns, [1e-30] * len(ns), ni)
                try:
                    r = ("ok", fields(v.run(i, magnetic_field=t, max_threads=th, verbose=False)))
                except Exception as x:  # noqa: BLE001
                    r = ("err", type(x).__name__)
                res[f"{name} ns={ns} niter={ni} threads={th}"] = (th, r)
    pathlib.Path(out).write_bytes(pickle.dumps(res))


def de_bruijn(alphabet, n):
    k = len(alphabet)
    a, seq = [0] * k * n, []

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    s = "".join(alphabet[i] for i in seq)
    return s + s[:n - 1]


def child(args, perturb, timeout):
    env = os.environ | {"MALLOC_PERTURB_": str(perturb), "OMP_WAIT_POLICY": "passive", "GOMP_SPINCOUNT": "0"}
    return subprocess.run([sys.executable, "-B", os.path.abspath(__file__), *map(str, args)], capture_output=True, text=True, env=env, timeout=timeout)


def check():
    c = vlib.Check("S03", "model_checking",
                   "alphabet of ten run kinds (success, kept without convergence, giving up, refused, hot restart, free boundary, interrupted, staged with axis re-guess and "
                   "printing, asymmetric free boundary, default threads); all ordered pairs in fresh processes and all histories of 3 (4 thorough) runs as windows of de Bruijn "
                   "sequences; every outcome compared with the run alone in a fresh process; two memory fill patterns over all equilibria",
                   ["multi-threaded kinds are compared up to rounding"])
    vlib.build(["_vmecpp"])
    d = pathlib.Path(tempfile.mkdtemp(prefix="s03"))
    tmo = 3000 if TH else 600
    runs = 0

    def job(k, seq, perturb):
        out = d / f"out_{k}"
        r = child(["w", d, seq, out], perturb, tmo)
        if not out.exists():
            return seq, perturb, None, f"process ended with {r.returncode}: {r.stderr[-300:]}"
        return seq, perturb, json.loads(out.read_text()), None
    try:
        # the state to restart from, made in a process of its own
        r = child(["r", d], 0, 300)
        if not (d / "restart.pkl").exists():
            raise vlib.CheckError("cannot make the restart state: " + r.stderr[-500:])
        with cf.ThreadPoolExecutor(vlib.NPROC) as ex:
            for seq, p, res, err in ex.map(lambda o: job("ref" + o, o, 0), OPS):
                runs += 1
                if err:
                    c.fail(f"alone:{seq}", err)
            for o in OPS:
                p = d / ("ref_" + o)
                if p.exists():
                    r = pickle.loads(p.read_bytes())
                    c.seen((o, r[0], r[1] if r[0] == "err" else ""))
                    vlib.log("reference", o, r[0], r[1:] if r[0] == "err" else "")
            seqs = [(x + y, (1, 171)[(i + j) % 2]) for i, x in enumerate(OPS) for j, y in enumerate(OPS)]
            k = 4 if TH else 3
            full = de_bruijn(OPS, k)
            n = (len(full) + 31) // 32
            seqs += [(full[i:i + n + k - 1], (1, 171)[(i // n) % 2]) for i in range(0, len(full), n)]
            order = sorted(range(len(seqs)), key=lambda i: -len(seqs[i][0]))
            for seq, p, res, err in ex.map(lambda i: job(i, *seqs[i]), order):
                runs += len(seq)
                if err:
                    c.fail(f"history:{seq[:12]}", f"{seq} fill={p}: {err}", {"sequence": seq, "fill": p})
                for hist, o, t in res or []:
                    c.fail(f"history:{o}:{t[:40]}", f"after {hist[:-1]!r} (of {seq[:40]}), run kind {o}: {t}", {"sequence": seq, "fill": p})
                for i in range(len(seq)):
                    c.seen(seq[max(0, i - 1):i + 1])
            # fill patterns
            P = vlib.NPROC
            list(ex.map(lambda a: child(["f", d / f"fill_{a[0]}_{a[1]}", a[1], P], a[0], tmo), [(p, i) for p in (1, 171, 0) for i in range(P)]))
            fills = [{}, {}, {}]
            for f, p in zip(fills, (0, 1, 171)):
                for i in range(P):
                    q = d / f"fill_{p}_{i}"
                    if q.exists():
                        f |= pickle.loads(q.read_bytes())
                    else:
                        c.fail(f"fill:{p}:{i}", f"the process with memory fill {p} died")
            for key in sorted(set().union(*fills)):
                for f, p in zip(fills[1:], (1, 171)):
                    runs += 1
                    if key not in f or key not in fills[0]:
                        c.fail(f"fill:{key}", "missing outcome")
                        continue
                    th, r = f[key]
                    t = compare(fills[0][key][1], r, th == 1)
                    if t:
                        c.fail(f"fill:{key}", f"{key}: depends on the contents of fresh memory: {t}", {"case": key, "fill": p})
                    c.seen(("fill", key.split()[0], r[0]))
    finally:
        import shutil
        shutil.rmtree(d, ignore_errors=True)
    c.cov.update({"cases": runs, "alphabet": len(OPS), "history_length": k, "histories": len(OPS) ** k + len(OPS) ** 2, "runs": runs,
                  "states": len(OPS) ** k, "transitions": runs, "traces_validated_against_impl": runs})
    return c


if len(sys.argv) > 1 and sys.argv[1] == "w":
    worker(*sys.argv[2:])
elif len(sys.argv) > 1 and sys.argv[1] == "r":
    w = World(pathlib.Path(sys.argv[2]))
    o = w.v.run(E.derive(w.op["e"][0], phiedge=w.op["e"][0].phiedge * 1.001), max_threads=1, verbose=False)
    pathlib.Path(sys.argv[2], "restart.pkl").write_bytes(pickle.dumps(o))
elif len(sys.argv) > 1 and sys.argv[1] == "f":
    worker_fill(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]))
else:
    vlib.main(check)
