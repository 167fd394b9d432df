"""N08: reduced resolution of the geometry, over all limits x equilibria x threads x stages."""
import os
import numpy as np
import equil as E
import vlib

TH = os.environ.get("VERIF_TIER") == "thorough"

INV = {"volume": 1e-9, "aspect": 1e-8, "wb": 1e-4, "vp": 1e-2, "iotaf": 3e-2, "presf": 1e-2, "phi": 1e-12, "bvco": 1e-3}


class Ctx:
    def __init__(self):
        self.v = v = vlib.load_vmecpp()
        E.quiet()
        f = E.fixed(v)
        self.e = {k: (f[k], None) for k in ("sol", "ell", "ela", "cth", "li", "circ")} | E.free(v)
        i, _ = self.e["ell"]
        self.e["ell5"] = (E.derive(i, mpol=5, ntor=3, **{k: type(i).resize_2d_coeff(np.array(getattr(i, k)), mpol_new=5, ntor_new=3) for k in ("rbc", "zbs")},
                                   raxis_c=np.append(i.raxis_c, 0), zaxis_s=np.append(i.zaxis_s, 0)), None)

    def run(self, i, t, thr=1, **kw):
        return self.v.run(i, magnetic_field=t, max_threads=thr, verbose=False, **kw)


def beyond(i, w, mg, ng):
    m, n = np.asarray(w.xm), np.abs(np.asarray(w.xn)) // int(w.nfp)
    return (m >= (mg if 1 <= mg <= i.mpol else i.mpol)) | (n > (ng if 0 <= ng <= i.ntor else i.ntor))


def eqs(a, b):
    return a is b or (a is not None and b is not None and np.array_equal(np.asarray(a), np.asarray(b), equal_nan=True))


def run(c, case):
    name, mg, ng, thr, st = case
    i, t = c.e[name]
    if st:
        ns = int(i.ns_array[-1])
        i = E.stages(i, [*st, ns], [1e-5] * len(st) + [float(i.ftol_array[-1])], [600] * len(st) + [int(i.niter_array[-1])])
    j = E.derive(i, mpol_geometry=mg, ntor_geometry=ng)
    try:
        o = c.run(j, t, thr)
    except Exception as e:  # noqa: BLE001
        return ("error", f"{type(e).__name__} {str(e)[:150]}")
    w, bad = o.wout, []
    out = beyond(i, w, mg, ng)
    for k in ("rmnc", "zmns") + (("rmns", "zmnc") if i.lasym else ()):
        x = getattr(w, k)
        if np.any(x[out] != 0):
            q = np.argwhere(x[out] != 0)[0]
            bad.append(("beyond", f"{k} has harmonics beyond the limit, surface {q[1]}"))
    if not out.any():
        a = c.run(i, t, thr).wout
        d = E.wdiff(a, w)
        if d[0] > (0 if thr == 1 else 1e-5) or thr == 1 and a.niter != w.niter:
            bad.append(("noop", f"a limit that excludes nothing changes {d[1]} by {d[0]:.2e}, iterations {a.niter} -> {w.niter}"))
    else:
        lam = getattr(w, "lmns_full")[out]
        full = [k for k in range(len(lam)) if np.max(np.abs(lam[k][1:])) > 0]
        if len(full) < len(lam) - (0 if i.ntor else 0):
            bad.append(("lambda", f"{len(lam) - len(full)} harmonics of lambda beyond the limit of the geometry are zero"))
        # harmonics of the given boundary beyond the limit do not matter
        M, N = np.meshgrid(np.arange(i.mpol), np.abs(np.arange(-i.ntor, i.ntor + 1)), indexing="ij")
        cut = (M >= (mg if 1 <= mg <= i.mpol else i.mpol)) | (N > (ng if 0 <= ng <= i.ntor else i.ntor))
        kw = {k: np.where(cut, 0.0, getattr(j, k)) for k in ("rbc", "zbs") + (("rbs", "zbc") if i.lasym else ())}
        na = np.arange(i.ntor + 1) > (ng if 0 <= ng <= i.ntor else i.ntor)
        kw |= {k: np.where(na, 0.0, np.array(getattr(j, k), float)[:i.ntor + 1]) for k in ("raxis_c", "zaxis_s") + (("raxis_s", "zaxis_c") if i.lasym else ())}
        try:
            b = c.run(E.derive(j, **kw), t, thr).wout
            if name == "li":                                       # another guess of the axis: compared on integral quantities
                fa, fb = E.wout_fields(b), E.wout_fields(w)
                for k, tol in INV.items():
                    x, y = fa[k][..., 1:-1] if fa[k].ndim else fa[k], fb[k][..., 1:-1] if fb[k].ndim else fb[k]
                    if np.max(np.abs(x - y)) > tol * np.max(np.abs(fa[k])):
                        bad.append(("boundary", f"boundary harmonics beyond the limit change {k} by {np.max(np.abs(x - y)) / np.max(np.abs(fa[k])):.2e}"))
            else:
                d = E.fdiff(b, w)
                if d[0] > (1e-7 if thr == 1 and t is None else 1e-3):
                    bad.append(("boundary", f"boundary harmonics beyond the limit change {d[1]} by {d[0]:.2e}"))
        except Exception as e:  # noqa: BLE001
            bad.append(("boundary", f"fails without the boundary harmonics beyond the limit: {type(e).__name__} {str(e)[:100]}"))
        # a restart keeps the limit
        r = c.run(E.derive(j, ns_array=j.ns_array[-1:], ftol_array=j.ftol_array[-1:], niter_array=j.niter_array[-1:]), t, thr,
                  restart_from=c.run(E.derive(i, ns_array=j.ns_array[-1:], ftol_array=j.ftol_array[-1:] * 0 + 1e-6, niter_array=j.niter_array[-1:]), t, thr)) if t is None and not st else o
        for k in ("rmnc", "zmns") + (("rmns", "zmnc") if i.lasym else ()):
            if np.any(getattr(r.wout, k)[out] != 0):
                bad.append(("restart", f"{k} of a restarted run has harmonics beyond the limit"))
    return ("ok", bad)


def check():
    c = vlib.Check("N08", "exploration", "equilibria x all limits (incl. none, at and above the resolution) x threads x stages", [])
    vlib.build(["_vmecpp"])
    cs = []
    for n, mp, nt in (("sol", 6, 0), ("circ", 6, 0), ("ell", 4, 2), ("ela", 4, 2), ("ell5", 5, 3), ("li", 6, 2), ("cth", 5, 4)):
        for mg in [-1, 0] + list(range(2, mp + 2)):
            for ng in [-1] + list(range(0, nt + 2)):
                cs.append((n, mg, ng, 1, ()))
                if TH or n in ("ell", "ela"):
                    cs.append((n, mg, ng, 3, ()))
                    cs.append((n, mg, ng, 1, (4, 5)))
                if TH:
                    cs.append((n, mg, ng, 2, (3, 6)))
    cs += [("solf", mg, -1, t, ()) for mg in (-1, 4, 5, 6) for t in (1, 3)]
    out = vlib.pmap(cs, run, init=Ctx, timeout=240)
    err = 0
    for cse, r in zip(cs, out):
        if r.kind != "ok":
            c.fail(f"{r.kind}:{cse}"[:150], f"{cse} -> {r}", {"case": repr(cse)})
            continue
        if r.value[0] == "error":
            err += 1
            c.cov.setdefault("runs_with_error", []).append(f"{cse}: {r.value[1]}"[:160])
            continue
        c.seen(cse)
        for t, d in r.value[1]:
            c.fail(f"{t}:{cse}", f"{cse}: {d}", {"case": repr(cse)})
    c.cov |= {"cases": len(cs), "without_result": err}
    if err > 0.3 * len(cs):
        c.fail("too-few-results", f"{err} of {len(cs)} runs fail: {c.cov['runs_with_error'][:5]}")
    return c


vlib.main(check)
