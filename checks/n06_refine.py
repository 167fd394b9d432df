"""N06: a solution is moved to other radial grids (native refinement with every scheme, scripted
interpolation, continuation in Fourier resolution) and compared with what it represents."""
import itertools as it
import os
import numpy as np
import equil as E
import vlib

TH = os.environ.get("VERIF_TIER") == "thorough"
SCHEMES = (None, "LINEAR", "CUBIC", "CUBIC_RHO")
INV = {"iotaf": 2e-2, "volume": 1e-6, "wb": 5e-4, "aspect": 1e-4, "vp": 3e-2, "presf": 2e-2, "phi": 1e-9, "betatotal": 5e-3, "bvco": 2e-3}


def pattern(shape, k=0):
    """values that tell every position apart"""
    n = int(np.prod(shape))
    x = np.arange(n, dtype=float)
    return (np.sin(0.7 + 1.37 * x + k) + 1e-3 * x / n + 0.5).reshape(shape)


class Ctx:
    def __init__(self):
        self.v = v = vlib.load_vmecpp()
        E.quiet()
        f = E.fixed(v)
        self.eq = {"2d": f["sol"], "3d": f["ell"], "3da": f["ela"], "cth": f["cth"]}
        z = np.zeros_like(f["sol"].rbc)
        zb = z.copy()
        zb[0, 0] = 0.01
        self.eq["2da"] = E.derive(f["sol"], lasym=True, rbs=z, zbc=zb, raxis_s=0 * f["sol"].raxis_c, zaxis_c=0 * f["sol"].raxis_c + 0.01)
        self.out = {}
        self.X = v._vmecpp

    def model(self, name, ns):
        i = self.eq[name]
        j = E.stages(i, [ns, ns + 1, ns + 9], [1e-3, 1e-4, 1e-5], [11, 12, 13])
        return self.X.VmecModel.create(j._to_cpp_vmecindata(), ns)

    def scheme(self, s):
        return None if s is None else getattr(self.X.MultigridInterpolationScheme, s)

    def source(self, name):
        if name not in self.out:
            i = self.eq[name]
            self.out[name] = self.v.run(i, max_threads=1, verbose=False)
        return self.out[name]


def refine(m, n1, s):
    if s is None:
        m.refine_to(n1)
    else:
        m.refine_to(n1, s)
    return m.get_state()


def cube(x, ns, mpol, nt):
    return x.reshape(-1, ns, mpol, nt + 1)


def scal(ns):
    s = np.arange(ns) / (ns - 1.0)
    r = np.sqrt(np.maximum(s, s[1]))
    return s, r


def interp(y, ns1, scheme):
    """independent reference: y[span, ns, m, n]"""
    ns0 = y.shape[1]
    s0, r0 = scal(ns0)
    s1, r1 = scal(ns1)
    out = np.zeros((y.shape[0], ns1) + y.shape[2:])
    for m in range(y.shape[2]):
        z = y[:, :, m].copy()
        if m % 2:
            z /= r0[None, :, None]
            z[:, 0] = 2 * z[:, 1] - z[:, 2]
        for j in range(ns1):
            # the old surfaces used: 2 around the position, or 4
            k = min(int(np.floor(j * (ns0 - 1) / (ns1 - 1))) if (j * (ns0 - 1)) % (ns1 - 1) else j * (ns0 - 1) // (ns1 - 1), ns0 - 1)
            if scheme in (None, "LINEAR") or ns0 < 4:
                k = min(k, ns0 - 2)
                idx, x, t = [k, k + 1], s0, s1[j]
            else:
                b = min(max(k - 1, 0), ns0 - 4)
                idx = [b, b + 1, b + 2, b + 3]
                x, t = (np.sqrt(s0), np.sqrt(s1[j])) if scheme == "CUBIC_RHO" else (s0, s1[j])
            for p in idx:
                w = np.prod([(t - x[q]) / (x[p] - x[q]) for q in idx if q != p])
                out[:, j, m] += w * z[:, p]
        if m % 2:
            out[:, :, m] *= r1[None, :, None]
            out[:, 0, m] = 0
    return out


def run_refine(c, case):
    _, name, n0, n1, sch = case
    i = c.eq[name]
    mp, nt = int(i.mpol), int(i.ntor)
    bad = []
    tag = f"refine:{name}:{n0}->{n1}:{sch}"
    m = c.model(name, n0)
    x0 = m.get_state()
    y = pattern((x0.size,), n0)
    yc = cube(y, n0, mp, nt)
    m.set_state(y)
    z = cube(refine(m, n1, c.scheme(sch)), n1, mp, nt)
    ref = interp(yc, n1, sch)
    d = np.max(np.abs(z - ref))
    if not d < 1e-11:
        w = np.unravel_index(np.argmax(np.abs(z - ref)), z.shape)
        bad.append((tag, f"coefficient {w} (kind, surface, m, n): {z[w]:.9g}, expected {ref[w]:.9g}"))
    # what the interpolation is for, independent of the reference: boundary, common surfaces
    if not np.max(np.abs(z[:, -1] - yc[:, -1])) < 1e-12:
        bad.append((tag + ":edge", "boundary not kept"))
    for j in range(1, n1 - 1):
        if (j * (n0 - 1)) % (n1 - 1) == 0 and not np.max(np.abs(z[:, j] - yc[:, j * (n0 - 1) // (n1 - 1)])) < 1e-11:
            bad.append((tag + ":common", f"surface {j}, common to both grids, not kept"))
    if not np.max(np.abs(z[:, 0, ::2] - yc[:, 0, ::2])) < 1e-12 or np.any(z[:, 0, 1::2] != 0):
        bad.append((tag + ":axis", "axis values: even harmonics not kept or odd ones not zero"))
    # the stage's starting state is what is restored, and the stage's settings apply
    m.set_state(pattern((z.size,), 3))
    m.restore_backup()
    if not np.array_equal(m.get_state(), z.ravel()):
        bad.append((tag + ":backup", "the state saved for restarts is not the interpolated one"))
    want = {n0: (1e-3, 11), n0 + 1: (1e-4, 12), n0 + 9: (1e-5, 13)}.get(n1, (1e-5, 13))
    if m.ns != n1 or (m.ftolv, m.niterv) != want:
        bad.append((tag + ":settings", f"ns, ftol, niter = {m.ns, m.ftolv, m.niterv}, expected {(n1, *want)}"))
    for k in (n1, n1 - 1, 2, 0, -1):
        try:
            m.refine_to(k)
            bad.append((tag + ":coarser", f"refine_to({k}) accepted"))
        except Exception:  # noqa: BLE001
            pass
    if not np.array_equal(m.get_state(), z.ravel()):
        bad.append((tag + ":coarser", "a refused refinement changed the state"))
    return bad


def run_chain(c, case):
    """several refinements in a row"""
    _, name, ns, schemes = case
    i = c.eq[name]
    mp, nt = int(i.mpol), int(i.ntor)
    m = c.model(name, ns[0])
    y = pattern(m.get_state().shape, 1)
    m.set_state(y)
    ref = cube(y, ns[0], mp, nt)
    for a, b, s in zip(ns, ns[1:], schemes):
        z = refine(m, b, c.scheme(s))
        ref = interp(ref, b, s)
    d = np.max(np.abs(z - ref.ravel()))
    # the refined model evaluates its state like a fresh one on that grid
    bad = [] if d < 1e-10 else [(f"chain:{name}:{ns}:{schemes}", f"differs by {d:.2e}")]
    f = c.model(name, ns[-1])
    x = f.get_state()
    m.set_state(x)
    m.evaluate(1, 1)
    f.evaluate(1, 1)
    a, b = m.get_forces(), f.get_forces()
    if not np.array_equal(a, b) or m.mhd_energy != f.mhd_energy:
        bad.append((f"chain-eval:{name}:{ns}:{schemes}", f"forces of the same state differ by {np.max(np.abs(a - b)):.2e} from those of a fresh model"))
    return bad


# ---------------------------------------------------------------------- scripted interpolation
def modes(mp, nt, nfp):
    return [(m, n * nfp) for m in range(mp) for n in range(0 if m == 0 else -nt, nt + 1)]


def synth(c, name, ns, mp, nt):
    """an output whose arrays hold position patterns for another resolution"""
    o = c.source(name)
    w = o.wout.model_copy(deep=True)
    ms = modes(mp, nt, int(w.nfp))
    mn = len(ms)
    k = 0
    for f, info in type(w).model_fields.items():
        x = getattr(w, f)
        ann = str(info.annotation)
        if not isinstance(x, np.ndarray) or "ndarray" not in ann:
            continue
        k += 1
        if "mn_mode n_surfaces" in ann:
            y = pattern((mn, ns), k)
            for j, (m, _) in enumerate(ms):
                if m % 2:
                    y[j, 0] = 0
        elif "mn_mode_nyq n_surfaces" in ann:
            y = pattern((x.shape[0], ns), k)
        elif "n_surfaces" in ann:
            y = pattern((ns,), k)
        elif "ntor_plus_1" in ann:
            y = pattern((nt + 1,), k)
        elif "'time'" in ann and x.dtype.kind == "f":
            y = pattern((ns,), k)                    # as many time steps as surfaces
        else:
            continue
        setattr(w, f, y)
    w.ns, w.mpol, w.ntor, w.mnmax = ns, mp, nt, mn
    w.xm, w.xn = np.array([a for a, _ in ms]), np.array([b for _, b in ms])
    return o.model_copy(update={"wout": w})


GEOM = ("rmnc", "zmns", "lmns_full", "rmns", "zmnc", "lmnc_full", "lmns", "lmnc")


def run_script(c, case):
    _, name, n0, n1, r0, r1 = case
    tag = f"script:{name}:{n0}->{n1}:{r0}->{r1}"
    src = synth(c, name, n0, *r0)
    i = c.eq[name]
    tgt = E.derive(i, mpol=r1[0], ntor=r1[1], ns_array=np.array([n1]), **{k: np.zeros((r1[0], 2 * r1[1] + 1)) for k in ("rbc", "zbs") + (("rbs", "zbc") if i.lasym else ())},
                   **{k: np.zeros(r1[1] + 1) for k in ("raxis_c", "zaxis_s") + (("raxis_s", "zaxis_c") if i.lasym else ())})
    keep = src.model_copy(deep=True)
    out = c.v.interpolate_solution(src, tgt)
    bad = []

    def same(a, b):
        return type(a) is type(b) and (np.array_equal(a, b, equal_nan=True) if isinstance(a, np.ndarray) and a.dtype.kind == "f" else np.array_equal(a, b) if isinstance(a, np.ndarray) else a == b or a != a)

    for f in type(src.wout).model_fields:
        if not same(getattr(src.wout, f), getattr(keep.wout, f)):
            bad.append((tag + ":source", f"the source solution was changed: {f}"))
    w, ms0, ms1 = out.wout, modes(*r0, int(src.wout.nfp)), modes(*r1, int(src.wout.nfp))
    if (w.ns, w.mpol, w.ntor, w.mnmax) != (n1, r1[0], r1[1], len(ms1)) or [tuple(map(int, p)) for p in zip(w.xm, w.xn)] != ms1:
        bad.append((tag + ":table", "resolution or mode table of the result"))
        return bad
    if out.input != tgt and not same(out.input.rbc, tgt.rbc):
        bad.append((tag + ":input", "input of the result"))
    _, s0 = scal(n0)
    _, s1 = scal(n1)
    X0, X1 = np.arange(n0) / (n0 - 1.0), np.arange(n1) / (n1 - 1.0)
    for f in GEOM:
        a, b = getattr(src.wout, f), getattr(w, f)
        if a is None:
            if b is not None:
                bad.append((tag + f":{f}", "appears from nowhere"))
            continue
        if b.shape != (len(ms1), n1):
            bad.append((tag + f":{f}", f"shape {b.shape}"))
            continue
        for j, p in enumerate(ms1):
            if p not in ms0:
                if np.any(b[j] != 0):
                    bad.append((tag + f":{f}", f"new mode {p} not zero"))
                continue
            y = a[ms0.index(p)]
            if n0 == n1:
                ok = np.array_equal(b[j], y)
            else:
                z = y.copy()
                if p[0] % 2:
                    z = z / s0
                    z[0] = 2 * z[1] - z[2]
                ok = False
                for q in (lambda t: t, np.sqrt):               # linear in s or in its root
                    e = np.interp(q(X1), q(X0), z)
                    if p[0] % 2:
                        e = e * s1
                        e[0] = 0
                    ok = ok or np.max(np.abs(e - b[j])) < 1e-12
            if not ok:
                bad.append((tag + f":{f}", f"mode {p} is not interpolated from the neighbouring surfaces"))
            if abs(b[j][-1] - y[-1]) > 1e-13:
                bad.append((tag + f":{f}", f"mode {p}: boundary value changed"))
    for f in ("raxis_cc", "zaxis_cs", "raxis_cs", "zaxis_cc"):
        a, b = getattr(src.wout, f), getattr(w, f)
        if a is None:
            continue
        e = np.zeros(r1[1] + 1)
        k = min(len(a), len(e))
        e[:k] = a[:k]
        if not np.array_equal(e, b):
            bad.append((tag + f":{f}", "axis coefficients"))
    for f, info in type(w).model_fields.items():
        a, b, ann = getattr(src.wout, f), getattr(w, f), str(info.annotation)
        if f in GEOM or f in ("raxis_cc", "zaxis_cs", "raxis_cs", "zaxis_cc", "xm", "xn", "ns", "mpol", "ntor", "mnmax"):
            continue
        if "n_surfaces" in ann and isinstance(a, np.ndarray):
            if b.shape != a.shape[:-1] + (n1,):
                bad.append((tag + f":{f}", f"shape {b.shape}"))
            elif n0 == n1 and not same(a, b):
                bad.append((tag + f":{f}", "changed although the grid is the same"))
        elif not same(a, b):
            bad.append((tag + f":{f}", "changed although it is not on the radial grid"))
    return bad


# ---------------------------------------------------------------------- continuation in Fourier resolution
def run_cont(c, case):
    _, name, sched, seed = case
    v, i = c.v, c.eq[name]
    tag = f"continuation:{name}:{sched}:{seed}"
    ns, mp, nt = sched
    n = len(ns)
    ft, ni = [1e-6] * (n - 1) + [1e-12], [1000] * (n - 1) + [4000]
    mps, nts = (mp if isinstance(mp, (list, tuple)) else [mp] * n), (nt if isinstance(nt, (list, tuple)) else [nt] * n)
    start = v.run(E.derive(i, ns_array=np.array([5]), ftol_array=np.array([1e-6]), niter_array=np.array([1000])), max_threads=1, verbose=False) if seed else None

    def resize(x, a, b):
        return type(i).resize_2d_coeff(np.array(x), mpol_new=a, ntor_new=b)

    def axis(x, b):
        e = np.zeros(b + 1)
        k = min(len(x), b + 1)
        e[:k] = np.array(x)[:k]
        return e

    ax = ("raxis_c", "zaxis_s") + (("raxis_s", "zaxis_c") if i.lasym else ())
    co = ("rbc", "zbs") + (("rbs", "zbc") if i.lasym else ())
    top = dict(zip(("a", "b"), (max(mps), max(nts))))
    full = E.derive(i, **{k: resize(getattr(i, k), top["a"], top["b"]) for k in co}, **{k: axis(getattr(i, k), top["b"]) for k in ax},
                    mpol=list(mps) if isinstance(mp, (list, tuple)) else mp, ntor=list(nts) if isinstance(nt, (list, tuple)) else nt,
                    ns_array=np.array(ns), ftol_array=np.array(ft), niter_array=np.array(ni))
    got = v.run(full, max_threads=1, verbose=False, restart_from=start)
    bad = []
    if list(np.atleast_1d(got.input.mpol)) != list(np.atleast_1d(full.mpol)) or list(got.input.ns_array) != list(ns):
        bad.append((tag + ":input", "the result does not carry the given input"))
    # the same steps by hand
    o = start
    for k in range(n):
        st = E.derive(i, mpol=mps[k], ntor=nts[k], ns_array=np.array([ns[k]]), ftol_array=np.array([ft[k]]), niter_array=np.array([ni[k]]),
                      **{q: resize(getattr(i, q), mps[k], nts[k]) for q in co}, **{q: axis(getattr(i, q), nts[k]) for q in ax})
        o = v.run(st, max_threads=1, verbose=False, restart_from=None if o is None else v.interpolate_solution(o, st))
    d = E.wdiff(got.wout, o.wout)
    if d[0] > 0:
        bad.append((tag + ":steps", f"{d[1]} differs by {d[0]:.2e} from the same steps done one by one"))
    cold = v.run(E.derive(st, ftol_array=np.array([1e-12]), niter_array=np.array([6000])), max_threads=1, verbose=False)
    a, b = E.wout_fields(cold.wout), E.wout_fields(got.wout)
    for k, tol in INV.items():
        s = np.max(np.abs(a[k]))
        x, y = (a[k][1:-1], b[k][1:-1]) if k == "iotaf" else (a[k], b[k])
        if s and np.max(np.abs(x - y)) > tol * s:
            bad.append((tag + ":cold", f"{k} differs by {np.max(np.abs(x - y)) / s:.1e} from a direct solve"))
    return bad


def run_refuse(c, case):
    _, name, kw = case
    i = c.eq[name]
    d = {k: x for k, x in kw}
    ns = d.pop("ns")
    try:
        j = E.derive(i, ns_array=np.array(ns), ftol_array=np.array([1e-6] * len(ns)), niter_array=np.array([500] * len(ns)), **d)
        c.v.run(j, max_threads=1, verbose=False)
    except Exception:  # noqa: BLE001
        return []
    return [(f"refuse:{kw}", "schedules of different length accepted")]


RUN = {"refine": run_refine, "chain": run_chain, "script": run_script, "cont": run_cont, "refuse": run_refuse}


def run_any(c, case):
    return RUN[case[0]](c, case)


def check():
    c = vlib.Check("N06", "exploration", "grid pairs x schemes x equilibrium kinds (all coefficients carry position patterns), chains of refinements, scripted interpolation over grid and resolution pairs, continuation schedules",
                   ["the internally scaled lambda is compared, not lambda itself (its normalisation depends on the grid for non-uniform flux profiles)"])
    vlib.build(["_vmecpp"])
    top, new = (10, 33) if TH else (7, 16)
    cs = [("refine", n, a, b, s) for n in ("2d", "3d", "3da", "2da") for a in range(3, top + 1) for b in range(a + 1, new + 1) for s in SCHEMES]
    cs += [("refine", "3da", a, b, s) for a, b in ((15, 29), (16, 46), (11, 101), (25, 50), (51, 101)) for s in SCHEMES]
    cs += [("chain", n, g, ss) for n in ("2d", "3da", "3d") for g in ((3, 5, 9), (4, 6, 7), (5, 9, 17), (3, 4, 5)) for ss in it.product(SCHEMES[1:], repeat=2)]
    if TH:
        cs += [("chain", n, g, ss) for n in ("2da", "3da") for g in ((3, 4, 6, 11), (5, 6, 7, 8)) for ss in it.product(SCHEMES[1:], repeat=3)]
    R = [(4, 2), (3, 2), (5, 3), (4, 1), (2, 0), (6, 2)]
    G = [(7, 7), (3, 7), (7, 13), (7, 4), (5, 9), (21, 25), (21, 21), (101, 13), (4, 101), (9, 3)]
    cs += [("script", n, *g, r0, r1) for n in ("3d", "3da") for g in G for r0 in (R if TH else R[:4]) for r1 in R]
    cs += [("script", n, *g, (a, 0), (b, 0)) for n in ("2d", "2da") for g in G for a in (3, 6) for b in (3, 4, 6, 8)]
    S = [([5, 7], [3, 4], 2), ([5, 7], [4, 4], [1, 2]), ([5, 7], [3, 4], [1, 2]), ([4, 5, 7], [3, 4, 5], [1, 2, 2]), ([7, 7], [4, 5], 2), ([5, 9], [4, 4], [2, 2]), ([7], [4], [2]), ([21, 25], [4, 5], 2)]
    cs += [("cont", n, s, sd) for n in ("3d", "3da") for s in S for sd in (0, 1) if not (sd and len(s[0]) == 1)]      # (lists of one entry count as plain numbers)
    cs += [("cont", "2d", s, 0) for s in [([5, 9], [5, 6], 0), ([5, 9], [6, 8], [0, 0]), ([9, 21, 25], [5, 6, 7], 0)]]
    cs += [("refuse", "3d", (("ns", ns), *kw)) for ns, kw in [((5, 7), (("mpol", [3, 4, 4]),)), ((7,), (("mpol", [3, 4]),)), ((5, 7), (("ntor", [1, 2, 2]), ("mpol", [4, 4])))]]
    out = vlib.pmap(cs, run_any, init=Ctx, timeout=240)
    for cse, r in zip(cs, out):
        if r.kind != "ok":
            c.fail(f"{r.kind}:{cse}"[:150], f"{cse} -> {r}", {"case": repr(cse)})
            continue
        c.seen((cse[0], str(cse[1:])))
        for t, d in r.value:
            c.fail(t, d, {"case": repr(cse)})
    c.cov |= {"cases": len(cs), "grid_pairs": len({x[2:4] for x in cs if x[0] == "refine"}), "schemes": len(SCHEMES)}
    return c


vlib.main(check)
