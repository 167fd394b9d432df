"""Y02: Fourier coefficient containers, bounded-exhaustive."""
import itertools, json, math
import numpy as np
import vlib

VAL = [0.0, 1.5, -2.0, math.nan, math.inf, -0.0]


def same(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.array_equal(a, b, equal_nan=True))


def init():
    v = vlib.load_vmecpp()
    import logging
    logging.disable(logging.CRITICAL)
    return v


def dense_case(v, c):
    from vmecpp import _util as U
    mpol, ntor, lo, hi, alpha = c
    viol, n = [], 0
    w = 2 * ntor + 1
    for idx in range(lo, hi):
        q, e = idx, []
        for _ in range(mpol * w):
            e.append(alpha[q % len(alpha)])
            q //= len(alpha)
        a = np.array(e, float).reshape(mpol, w)
        n += 1
        viol += one_dense(U, a, f"dense {mpol}x{w} #{idx}")
    return n, viol[:10], f"dense{mpol}x{w}"


def one_dense(U, a, key):
    viol = []
    mpol, w = a.shape
    ntor = (w - 1) // 2
    b = a.copy()
    s = U.dense_to_sparse_coefficients(a)
    if not np.array_equal(a.view(np.int64), b.view(np.int64)):
        viol.append((key, "input modified"))
    want = {(m, j - ntor): a[m, j] for m in range(mpol) for j in range(w) if a[m, j] != 0}
    got = {}
    for e in s:
        if set(e) != {"m", "n", "value"} or type(e["m"]) is not int or type(e["n"]) is not int or type(e["value"]) is not float:
            viol.append((key, f"bad entry {e!r}"))
            continue
        if (e["m"], e["n"]) in got:
            viol.append((key, f"duplicate entry {e!r}"))
        got[e["m"], e["n"]] = e["value"]
    nz = {k: x for k, x in got.items() if x != 0}
    if set(nz) != set(want) or any(not (nz[k] == want[k] or (math.isnan(nz[k]) and math.isnan(want[k]))) for k in want):
        viol.append((key, f"{a.tolist()} -> {s}"))
    json.dumps(s)
    for (M, N) in {(mpol, ntor), (mpol + 1, ntor), (mpol, ntor + 1), (mpol + 2, ntor + 3)}:
        d = U.sparse_to_dense_coefficients(s, M, N)
        ref = np.zeros((M, 2 * N + 1))
        ref[:mpol, N - ntor:N + ntor + 1] = a
        if not same(d, ref):
            viol.append((key, f"back to {M},{N}: {d.tolist()}"))
    i = U.sparse_to_dense_coefficients_implicit(s)
    mx = max([m for m, _ in nz], default=0) + 1
    nx = max([abs(k) for _, k in nz], default=0)
    ref = np.zeros((mx, 2 * nx + 1))
    for (m, k), x in nz.items():
        ref[m, k + nx] = x
    if not same(i, ref):
        viol.append((key, f"implicit: {i.tolist()} instead of {ref.tolist()}"))
    if U.sparse_to_dense_coefficients_implicit(a) is not a:
        viol.append((key, "dense input of implicit conversion not returned as is"))
    return viol


def unit_case(v, c):
    from vmecpp import _util as U
    mpol, ntor = c
    viol, n = [], 0
    for m in range(mpol):
        for j in range(2 * ntor + 1):
            for fill in (0.0, 1.0):
                a = np.full((mpol, 2 * ntor + 1), 0.0) if not fill else (np.arange(mpol * (2 * ntor + 1)) + 1.0).reshape(mpol, -1)
                a[m, j] = 0.1 if not fill else 0.0
                n += 1
                viol += one_dense(U, a, f"unit {mpol},{ntor} at {m},{j} fill {fill}")
    for bad in [(mpol, 2 * ntor + 2)]:
        n += 1
        try:
            r = U.dense_to_sparse_coefficients(np.ones(bad))
            viol.append((f"even columns {bad}", f"accepted: {r}"[:200]))
        except (AssertionError, ValueError):
            pass
    return n, viol[:10], "unit"


def sparse_case(v, c):
    """all sparse lists of up to 2 entries (3 for the smallest) in and around the range"""
    from vmecpp import _util as U
    mpol, ntor, L = c
    viol, n = [], 0
    modes = [(m, k) for m in range(-1, mpol + 2) for k in range(-ntor - 2, ntor + 3)]
    for combo in itertools.product(modes, repeat=L):
        n += 1
        vals = [1.5, -7.25, math.nan][:L]
        s = [{"m": m, "n": k, "value": x} for (m, k), x in zip(combo, vals)]
        s0 = json.dumps(s)
        ok = all(0 <= m < mpol and -ntor <= k <= ntor for m, k in combo)
        key = f"sparse {mpol},{ntor} {combo}"
        try:
            d = U.sparse_to_dense_coefficients(s, mpol, ntor)
        except ValueError:
            if ok:
                viol.append((key, "refused"))
            continue
        except Exception as e:  # noqa: BLE001
            viol.append((key, f"{type(e).__name__}: {e}"))
            continue
        if json.dumps(s) != s0:
            viol.append((key, "list modified"))
        if not ok:
            viol.append((key, f"out-of-range mode accepted: {np.asarray(d).tolist()}"))
            continue
        ref = np.zeros((mpol, 2 * ntor + 1))
        good = d.shape == ref.shape
        for m in range(mpol):
            for k in range(-ntor, ntor + 1):
                cand = [x for cc, x in zip(combo, vals) if cc == (m, k)] or [0.0]
                good = good and any(same(d[m, k + ntor], x) for x in cand)
        if not good:
            viol.append((key, f"{d.tolist()}"))
        # implicit conversion of in-range lists
        i = np.asarray(U.sparse_to_dense_coefficients_implicit(s))
        mx, nx = max(m for m, _ in combo) + 1, max(abs(k) for _, k in combo)
        if i.shape != (mx, 2 * nx + 1) or any(not any(same(i[m, k + nx], x) for cc, x in zip(combo, vals) if cc == (m, k)) for m, k in set(combo)) \
                or sum(1 for x in i.ravel() if x != 0) != len(set(combo)):
            viol.append((key, f"implicit {i.tolist()}"))
    return n, viol[:10], f"sparse{L}"


def resize_case(v, c):
    m0, n0 = c
    V = v.VmecInput
    viol, n = [], 0
    a = (np.arange(m0 * (2 * n0 + 1)) + 1.25).reshape(m0, 2 * n0 + 1)
    if a.size > 2:
        a.flat[1] = math.nan
    for m1 in range(0, 8):
        for n1 in range(0, 7):
            n += 1
            b = a.copy()
            r = V.resize_2d_coeff(a, m1, n1)
            ref = np.zeros((m1, 2 * n1 + 1))
            for m in range(min(m0, m1)):
                for k in range(-min(n0, n1), min(n0, n1) + 1):
                    ref[m, k + n1] = a[m, k + n0]
            if not same(r, ref):
                viol.append((f"resize {m0},{n0}->{m1},{n1}", np.asarray(r).tolist()))
            if not same(a, b):
                viol.append((f"resize {m0},{n0}->{m1},{n1}", "input modified"))
            if np.shares_memory(r, a) and (m1, n1) != (m0, n0):
                viol.append((f"resize {m0},{n0}->{m1},{n1}", "result aliases the input"))
    for f in (lambda: V.resize_2d_coeff(np.ones((m0, 2 * n0 + 2)), 2, 2), lambda: V.resize_2d_coeff(a, -1, 1), lambda: V.resize_2d_coeff(a, 1, -1), lambda: V.resize_1d_axis_coeff(a[0], -1)):
        n += 1
        try:
            r = f()
            viol.append((f"resize {m0},{n0} impossible", f"accepted {np.shape(r)}"))
        except (AssertionError, ValueError):
            pass
    for L in range(0, 7):
        for n1 in range(0, 7):
            n += 1
            x = np.arange(L) + 0.5
            try:
                r = V.resize_1d_axis_coeff(x, ntor_new=n1)
                ref = np.zeros(n1 + 1)
                ref[:min(L, n1 + 1)] = x[:n1 + 1]
                if L > n1 + 1:
                    viol.append((f"axis {L}->{n1}", f"silently cut to {r}"))
                elif not same(r, ref):
                    viol.append((f"axis {L}->{n1}", str(r)))
            except ValueError:
                if L <= n1 + 1:
                    viol.append((f"axis {L}->{n1}", "refused"))
    # the input model: every pairing of list/dense boundary with a target resolution
    if m0 >= 1:
        for m1 in range(1, 6):
            for n1 in range(0, 4):
                for form in ("dense", "sparse"):
                    n += 1
                    q = np.where(np.isnan(a), 9.0, a)
                    from vmecpp import _util as U
                    val = q if form == "dense" else U.dense_to_sparse_coefficients(q)
                    ref = np.zeros((m1, 2 * n1 + 1))
                    for m in range(min(m0, m1)):
                        for k in range(-min(n0, n1), min(n0, n1) + 1):
                            ref[m, k + n1] = q[m, k + n0]
                    for lasym in (False, True):
                        kw = dict(rbc=val, zbs=val)
                        if lasym:
                            kw.update(rbs=val, zbc=val, raxis_s=np.zeros(n1 + 1), zaxis_c=np.zeros(n1 + 1))
                        mod = V(mpol=m1, ntor=n1, lasym=lasym, **kw)
                        for f in kw:
                            if f.startswith(("rb", "zb")) and not same(getattr(mod, f), ref):
                                viol.append((f"model {m0},{n0}->{m1},{n1} {form} {f}", getattr(mod, f).tolist()))
                        r = V.model_validate_json(mod.model_dump_json())
                        for f in ("rbc", "zbs", "rbs", "zbc"):
                            x, y = getattr(mod, f), getattr(r, f)
                            if (x is None) != (y is None) or (x is not None and not same(x, y)):
                                viol.append((f"model json {m0},{n0}->{m1},{n1} {form} {f}", str(y)))
    return n, viol[:10], "resize"


def pad_case(v, _):
    from vmecpp import _util as U
    viol, n = [], 0
    for L in range(0, 9):
        for dt in (float, int):
            x = (np.arange(L) * 2 + 1).astype(dt)
            for t in range(0, 12):
                for dv in (0.0, -1.0):
                    n += 1
                    x0 = x.copy()
                    try:
                        r = U.pad_to_target(x, t, dv)
                        if L > t:
                            viol.append((f"pad {L}->{t}", "too long array accepted"))
                        elif len(r) != t or not np.array_equal(r[:L], x) or not np.all(r[L:] == dv):
                            viol.append((f"pad {L}->{t} {dv}", str(r)))
                    except ValueError:
                        if L <= t:
                            viol.append((f"pad {L}->{t}", "refused"))
                    r = U.right_pad(x, t, dv)
                    if len(r) != max(L, t) or not np.array_equal(r[:L], x) or not np.all(r[L:] == dv):
                        viol.append((f"right_pad {L}->{t} {dv}", str(r)))
                    if not np.array_equal(x, x0):
                        viol.append((f"pad {L}->{t}", "input modified"))
    for e in ([], np.zeros((0, 0))):
        n += 1
    if U.dense_to_sparse_coefficients(np.zeros((0, 0))) != []:
        viol.append(("empty", "0x0 table"))
    if not same(U.sparse_to_dense_coefficients([], 2, 1), np.zeros((2, 3))):
        viol.append(("empty", "empty list"))
    if np.any(U.sparse_to_dense_coefficients_implicit([])):
        viol.append(("empty", "implicit empty list"))
    return n, viol[:10], "pad"


def run():
    c = vlib.Check("Y02", "exploration", "all tables over a 4-6 letter value alphabet with up to 6 entries, all unit modes up to mpol 8 x ntor 6, all sparse lists of up to 2 (3) entries in and around the range, all pairs of resolutions up to 7x6, all padding lengths", [])
    vlib.build(["_vmecpp"])
    cases = [("pad", None)]
    for mpol in range(0, 7):
        for ntor in range(0, 3):
            k = mpol * (2 * ntor + 1)
            al = VAL if k <= 3 else VAL[:4] if k <= (6 if c.thorough else 5) else VAL[:2] if k <= 12 else None
            if al:
                tot = len(al) ** k
                for lo in range(0, tot, 400):
                    cases.append(("dense", (mpol, ntor, lo, min(tot, lo + 400), al)))
    cases += [("unit", (m, n)) for m in range(1, 9) for n in range(0, 7)]
    for mpol in range(1, 5):
        for ntor in range(0, 4):
            for L in (1, 2) if mpol + ntor > 2 and not c.thorough else (1, 2, 3) if mpol + ntor <= 3 else (1, 2):
                cases.append(("sparse", (mpol, ntor, L)))
    cases += [("resize", (m, n)) for m in range(1, 8) for n in range(0, 7)]
    fns = {"dense": dense_case, "unit": unit_case, "sparse": sparse_case, "resize": resize_case, "pad": pad_case}
    for cs, r in zip(cases, vlib.pmap(cases, lambda ctx, x: fns[x[0]](ctx, x[1]), init, timeout=200)):
        if r.kind != "ok":
            c.fail(f"case {cs}"[:150], r)
            continue
        n, viol, kind = r.value
        c.evaluations += n
        c.outcomes[kind] = c.outcomes.get(kind, 0) + n
        for k, d in viol:
            c.fail(k, d)
    c.sample("sparse list [(m=0,n=-ntor),(m=mpol-1,n=ntor)] to dense and back; resize 3x2 -> 5x1")
    return c


vlib.main(run)
