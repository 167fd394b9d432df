"""F02: tabulated coil fields equal the field of the coils, and reach the free-boundary solve unchanged.

Bounded exhaustive exploration over grid shapes, symmetry and normalisation options, coil sets, files and malformed tables.
Oracle: Biot-Savart integrals evaluated independently (elliptic integrals for loops, closed form for straight segments)."""
import itertools as it
import math
import os
import pathlib
import numpy as np
import vlib
import equil as E


# ---- coil sets ------------------------------------------------------------------------------------------------------------
def rot(v, a):
    c, s = math.cos(a), math.sin(a)
    return np.array([[c * x - s * y, s * x + c * y, z] for x, y, z in v])


def flip(v):
    """stellarator symmetry: (x, y, z) -> (x, -y, -z); direction reversed keeps the current's image symmetric"""
    return np.array([[x, -y, -z] for x, y, z in v])[::-1]


def ring(c, nfp, cur):
    """the coil, its mirror image and all rotations: a stellarator symmetric, nfp-periodic circuit"""
    out = []
    for k in range(nfp):
        for p in (c, flip(c)):
            out.append((cur, (("polygon", "p", tuple(tuple(float(q) for q in x) for x in rot(p, 2 * math.pi * k / nfp))),)))
    return tuple(out)


A1 = np.array([[2.0, 0.3, 0.0], [2.6, 0.4, 0.9], [3.6, 0.5, 0.3], [3.1, 0.45, -1.0], [2.0, 0.3, 0.0]])
A2 = np.array([[1.9, 0.6, 0.2], [2.9, 0.9, 1.1], [3.7, 0.8, -0.4], [1.9, 0.6, 0.2]])


def loop(r, z, w=1.0, n=1.0):
    return (w, (("circle", "c", r, (0.0, 0.0, z), (0.0, 0.0, n)),))


def configs():
    """name -> (configuration, nfp, symmetric)"""
    c = {}
    c["loops"] = ((1, ((2.0, (loop(4.0, 1.0, 3.0), loop(4.0, -1.0, 3.0))), (1.0, (loop(5.0, 0.5, -2.0), loop(5.0, -0.5, -2.0), loop(1.0, 0.0, 7.0))))), 1, True)
    for nfp in (1, 2, 5):
        c[f"stell{nfp}"] = ((nfp, ((1.5e5, ring(A1, nfp, 2.0)), (-3e4, ring(A2, nfp, -4.0)), (1e4, (loop(4.5, 1.5), loop(4.5, -1.5))))), nfp, True)
    c["mixed"] = ((3, ((1e5, ring(A1, 3, 2.0) + ring(A2, 3, -1.0)), (5.0, (loop(4.2, 1.1, 10.0), loop(4.2, -1.1, 10.0), loop(4.4, 0.3, -4.0), loop(4.4, -0.3, -4.0))))), 3, True)
    c["asym"] = ((1, ((2.0, ((5.0, (("polygon", "a", tuple(map(tuple, A1.tolist()))),)), (-2.5, (("polygon", "b", tuple(map(tuple, A2.tolist()))), ("circle", "c", 4.0, (0.0, 0.0, 0.7), (0.0, 0.0, -2.0)))))), (0.0, (loop(4.0, 1.0),)))), 1, False)
    c["nowind"] = ((1, ((3.0, ((None, loop(4.0, 1.0)[1]), (2.0, loop(4.2, -0.7)[1]))),)), 1, False)
    return c


def loop_a(a, z0, cur, R, Z):
    from scipy.special import ellipe, ellipk
    z = Z - z0
    m = 4 * a * R / ((a + R) ** 2 + z ** 2)
    k = np.sqrt(m)
    return 4e-7 * cur / k * np.sqrt(a / R) * ((1 - m / 2) * ellipk(m) - ellipe(m))


def segment_a(verts, cur, pts):
    out = np.zeros_like(pts)
    for p, q in zip(verts[:-1], verts[1:]):
        L = np.linalg.norm(q - p)
        ri, rf = np.linalg.norm(pts - p, axis=1), np.linalg.norm(pts - q, axis=1)
        out += (1e-7 * cur * np.log((ri + rf + L) / (ri + rf - L)))[:, None] * ((q - p) / L)
    return out


def ref(circuit, pts, pot=False):
    """Cartesian field (or potential) of one circuit of unit current at points (n,3)"""
    R, P, Z = np.hypot(pts[:, 0], pts[:, 1]), np.arctan2(pts[:, 1], pts[:, 0]), pts[:, 2]
    b = np.zeros_like(pts)
    for w, cars in circuit:
        w = 1.0 if w is None else w
        for c in cars:
            if c[0] == "circle":
                s = math.copysign(1.0, c[4][2]) * w
                if pot:
                    a = loop_a(c[2], c[3][2], s, R, Z)
                    b += np.stack([-a * np.sin(P), a * np.cos(P), 0 * a], 1)
                else:
                    x, z = E.loop_field(c[2], c[3][2], s, R, Z)
                    b += np.stack([x * np.cos(P), x * np.sin(P), z], 1)
            elif c[0] == "polygon":
                b += (segment_a if pot else E.segment_field)(np.array(c[2]), w, pts)
            elif c[0] == "line":
                o, d = np.array(c[2]), np.array(c[3])
                d = d / np.linalg.norm(d)
                r = pts - o
                r = r - np.outer(r @ d, d)
                b += 2e-7 * w * np.cross(d, r) / (r ** 2).sum(1)[:, None]
    return b


def cyl(b, P):
    return b[:, 0] * np.cos(P) + b[:, 1] * np.sin(P), b[:, 1] * np.cos(P) - b[:, 0] * np.sin(P), b[:, 2]


def near(a, b, tol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or not np.all(np.isfinite(a)):
        return False
    s = np.abs(b).max() if b.size else 0
    return bool(np.all(np.abs(a - b) <= tol * s + 1e-300))


def init():
    E.quiet()
    return vlib.load_ext("x_coils"), vlib.load_vmecpp()


# ---- A: tables of the coils -----------------------------------------------------------------------------------------------
def table_case(ctx, case):
    X, _ = ctx
    name, (nr, nz, nphi), sym, norm, zlo, pot = case
    conf, nfp, symm = configs()[name]
    zmax = 0.25
    zmin = -zmax if zlo is None else zlo
    p = (norm, sym, nfp, 2.9, 3.2, nr, zmin, zmax, nz, nphi)
    try:
        got = (X.table_a if pot else X.table_b)(p, conf)
    except Exception as e:  # noqa: BLE001
        ok = sym and (nphi % 2 or zmin != -zmax)
        return [] if ok else [("refused", repr(e)[:200])], "refused"
    bad = []
    if got[0] != p:
        bad.append(("parameters", f"{got[0]} want {p}"))
    R, P, Z = E.cyl_grid(nfp, 2.9, 3.2, nr, zmin, zmax, nz, nphi)
    pts = np.stack([R * np.cos(P), R * np.sin(P), Z], 1)
    if sym and nphi % 2 == 0:
        pass                          # full table expected all the same
    if len(conf[1]) != got[1].shape[0]:
        bad.append(("rows", f"{got[1].shape}"))
        return bad, "table"
    for k, (cur, coils) in enumerate(conf[1]):
        scale = cur
        if norm:
            w0 = coils[0][0]
            scale = 1.0 / (1.0 if w0 is None else w0)
        want = cyl(ref(coils, pts, pot) * scale, P)
        s = max(np.abs(w).max() for w in want)
        for n, g, w in zip("rpz", got[1:], want):
            d = np.abs(g[k] - w).max() if g[k].shape == w.shape else np.inf
            if not d <= 1e-9 * s + 1e-300:
                bad.append((f"{'A' if pot else 'B'}_{n}", f"circuit {k}: deviation {d:.2e} of {s:.2e}; first differing point {int(np.argmax(np.abs(g[k] - w)))}"))
    return bad, "table"


# ---- B: fields of configurations at points --------------------------------------------------------------------------------
LINE = ("line", "l", (0.2, -0.1, 0.0), (0.5, 0.25, 2.0))


def field_case(ctx, case):
    X, _ = ctx
    kinds, cur, npts, start = case
    mkc = {"c": loop(4.0, 0.6, 2.0), "n": loop(3.9, -0.5, -1.5, -3.0), "p": (3.0, (("polygon", "a", tuple(map(tuple, A1.tolist()))),)),
           "l": (2.0, (LINE,)), "e": (2.0, ()), "0": (0.0, loop(4.0, 0.1)[1]), "u": (None, loop(4.4, 0.1)[1]), "m": (2.0, (LINE, *loop(4.0, 0.6)[1]))}
    circ = tuple((c, tuple(mkc[k] for k in ks)) for c, ks in zip(cur, kinds))
    conf = (1, circ)
    pts = np.array([[3.0 + 0.1 * i, 0.2 - 0.15 * i, 0.1 * i - 0.2] for i in range(npts)]).reshape(npts, 3)
    want = np.full((npts, 3), start)
    for c, coils in circ:
        if c is not None and c != 0.0:
            want = want + c * ref(coils, pts)
    bad = []
    g = np.array(X.field(conf, pts.tolist(), start)).reshape(npts, 3)
    if not near(g, want):
        bad.append(("field", f"{g.tolist()} want {want.tolist()}"))
    has_line = any(k in "lm" for ks in kinds for k in ks)
    try:
        g = np.array(X.potential(conf, pts.tolist(), start)).reshape(npts, 3)
        want = np.full((npts, 3), start)
        for c, coils in circ:
            if c is not None and c != 0.0:
                want = want + c * ref(coils, pts, True)
        live = any(k in "lm" for ks, c in zip(kinds, cur) for k in ks if c)
        if has_line and live:
            bad.append(("potential", "of an infinite straight filament accepted"))
        elif not near(g, want):
            bad.append(("potential", f"{g.tolist()} want {want.tolist()}"))
    except Exception as e:  # noqa: BLE001
        if not has_line:
            bad.append(("potential", repr(e)[:200]))
    return bad, "field"


# ---- C: files and the provider --------------------------------------------------------------------------------------------
def fill(nc, n, salt=0):
    """distinct numbers so that any mixed-up index shows"""
    k = np.arange(nc * n, dtype=float).reshape(nc, n)
    return k + 0.25 + salt, -2 * k - 0.5 - salt, 3.5 * k + 1e-3 + salt


def bilinear(t, p, cur, r, z, k):
    _, _, _, r0, r1, nr, z0, z1, nz, _ = p
    x = np.clip((min(max(r, r0), r1) - r0) / (r1 - r0) * (nr - 1), 0, nr - 1)
    y = np.clip((min(max(z, z0), z1) - z0) / (z1 - z0) * (nz - 1), 0, nz - 1)
    i, j = min(int(x), nr - 2), min(int(y), nz - 2)
    f, g = x - i, y - j
    o = []
    for c in t:
        a = np.tensordot(np.array(cur), c, 1).reshape(-1, nz, nr)[k]
        o.append((1 - f) * (1 - g) * a[j, i] + f * (1 - g) * a[j, i + 1] + (1 - f) * g * a[j + 1, i] + f * g * a[j + 1, i + 1])
    return o


def file_case(ctx, case):
    import netCDF4
    X, _ = ctx
    (nr, nz, nphi), nc, norm, pot, tmp = case
    p = (norm, False, 3, 1.25, 2.5, nr, -0.5, 0.75, nz, nphi)
    t = fill(nc, nr * nz * nphi)
    cur = np.array([(-1.0) ** i * (i + 0.5) for i in range(nc)])
    f = f"{tmp}/m_{nr}_{nz}_{nphi}_{nc}_{norm}_{pot}.nc"
    a = tuple(10.0 * x for x in t) if pot else None
    bad = []
    raw = np.array([2.0 + i for i in range(nc)])
    X.write(f, p, raw, *t, a)
    with netCDF4.Dataset(f) as d:
        for k, w in dict(ir=nr, jz=nz, kp=nphi, nfp=3, nextcur=nc, rmin=1.25, rmax=2.5, zmin=-0.5, zmax=0.75).items():
            if d[k][()] != w:
                bad.append(("header", f"{k} {d[k][()]} want {w}"))
        if bytes(d["mgrid_mode"][:].tobytes())[:1] != (b"S" if norm else b"R"):
            bad.append(("header", "mgrid_mode"))
        if not np.array_equal(np.asarray(d["raw_coil_cur"][:]), raw):
            bad.append(("header", "raw_coil_cur"))
        for k in range(nc):
            for n, x in zip(("br", "bp", "bz"), t):
                if not np.array_equal(np.asarray(d[f"{n}_{k + 1:03d}"][:]), x[k].reshape(nphi, nz, nr)):
                    bad.append(("content", f"{n} circuit {k}"))
            for n, x in zip(("ar", "ap", "az"), t):
                if pot != (f"{n}_{k + 1:03d}" in d.variables):
                    bad.append(("content", f"{n} presence"))
                elif pot and not np.array_equal(np.asarray(d[f"{n}_{k + 1:03d}"][:]), 10 * x[k].reshape(nphi, nz, nr)):
                    bad.append(("content", f"{n} circuit {k}"))
    g1, g2 = X.Provider(), X.Provider()
    if g1.loaded():
        bad.append(("loaded", "before loading"))
    m1, m2 = g1.load_file(f, cur), g2.load_table(p, *t, cur)
    for x, y in zip(m1[:10], m2[:10]):
        if x != y:
            bad.append(("file vs memory", f"{m1[:10]} vs {m2[:10]}"))
    for x, y, w in zip(m1[10:], m2[10:], t):
        s = np.tensordot(cur, w, 1)
        if not near(x, s, 1e-14) or not near(y, s, 1e-14):
            bad.append(("sum", "weighted sum over the circuits"))
    # a second load in the same provider leaves nothing behind
    t2 = fill(1, 2 * 2, 5)
    p2 = (False, False, 1, 0.5, 1.0, 2, -1.0, 1.0, 2, 1)
    g2.load_table(p2, *t2, np.array([2.0]))
    m3 = g2.load_file(f, cur)
    if not all(np.array_equal(x, y) for x, y in zip(m1, m3)):
        bad.append(("reload", "depends on what was loaded before"))
    # interpolation at all grid points, cell centres and outside points, for all windows of the surface
    rs = sorted({1.25 + 1.25 * i / (2 * (nr - 1)) for i in range(2 * nr - 1)} | {1.0, 2.6})
    zs = sorted({-0.5 + 1.25 * i / (2 * (nz - 1)) for i in range(2 * nz - 1)} | {-0.9, 1.1})
    pts = [(r, z) for r in rs for z in zs]
    nt = len(pts)
    R = np.array([r for r, _ in pts for _ in range(nphi)])
    Z = np.array([z for _, z in pts for _ in range(nphi)])
    want = np.array([bilinear(t, p, cur, r, z, k) for r, z in pts for k in range(nphi)]).T
    n = nt * nphi
    sc = max(np.abs(np.tensordot(cur, w, 1)).max() for w in t)
    for lo, hi in ((0, n), (0, 1), (n - 1, n), (n // 3, 2 * n // 3 + 1), (1, n), (n // 2, n // 2)):
        o = g1.field(lo, hi, nphi, R, Z)
        for q, (x, w) in enumerate(zip(o, want)):
            if not np.all(np.abs(x[:hi - lo] - w[lo:hi]) <= 1e-12 * sc):
                i = int(np.argmax(np.abs(x[:hi - lo] - w[lo:hi])))
                bad.append(("interpolation", f"component {q} window {lo}:{hi} at R={R[lo + i]} Z={Z[lo + i]} plane {(lo + i) % nphi}: {x[i]} want {w[lo + i]}"))
            if not np.all(x[hi - lo:] == 777.0):
                bad.append(("interpolation", "wrote outside its window"))
    os.unlink(f)
    return bad, "file"


# ---- D: malformed tables and files ----------------------------------------------------------------------------------------
def mutate(src, dst, what):
    import netCDF4
    kind, name, arg = what
    with netCDF4.Dataset(src) as d, netCDF4.Dataset(dst, "w", format="NETCDF3_CLASSIC") as o:
        for k, x in d.dimensions.items():
            o.createDimension(k, len(x))
        o.createDimension("odd", 7)
        for k, x in d.variables.items():
            if kind == "drop" and k == name:
                continue
            dims, dt, val = list(x.dimensions), x.dtype, x[...]
            if k == name and kind == "type":
                dt = np.dtype(arg)
                val = np.zeros(val.shape, dt)
            if k == name and kind == "dim":
                if arg == "swap":
                    dims = dims[::-1]
                    val = np.asarray(val).T
                elif arg == "extra":
                    dims = dims + ["odd"]
                    val = np.zeros([o.dimensions[q].size for q in dims])
                elif arg == "odd" and dims:
                    dims = dims[:-1] + ["odd"]
                    val = np.zeros([o.dimensions[q].size for q in dims])
                elif arg == "less" and dims:
                    dims = dims[:-1]
                    val = np.zeros([o.dimensions[q].size for q in dims])
                else:
                    continue
            if k == name and kind == "value":
                val = np.array(arg, dtype=dt)
            v = o.createVariable(k, dt, dims)
            v[...] = val


def bad_file_case(ctx, case):
    X, _ = ctx
    tmp, what, ncur = case
    src, dst = f"{tmp}/base.nc", f"{tmp}/bad_{os.getpid()}.nc"
    g = X.Provider()
    if what[0] == "cut":
        open(dst, "wb").write(open(src, "rb").read()[:what[2]])
    elif what[0] == "raw":
        open(dst, "wb").write(what[2])
    elif what[0] == "path":
        dst = what[2]
    elif what[0] == "same":
        dst = src
    else:
        mutate(src, dst, what)
    try:
        r = g.load_file(dst, np.ones(ncur))
    except Exception as e:  # noqa: BLE001
        return ([("loaded", "a failed load counts as loaded")] if g.loaded() else []), "error"
    # accepted: then everything must be usable (the netCDF library itself reads zeros from a cut classic file)
    nr, nz, nphi, nc = r[1], r[4], r[7], r[8]
    n = nr * nz * nphi
    bad = []
    if nr < 2 or nz < 2 or nphi < 1 or nc != ncur or any(len(x) != n for x in r[10:]) or not (r[3] > r[2]) or not (r[6] > r[5]):
        bad.append(("accepted", f"unusable grid {r[:10]}"))
    elif what[0] in ("drop", "dim"):
        bad.append(("accepted", f"{what}"))
    return bad, "accepted"


def bad_table_case(ctx, case):
    X, _ = ctx
    p, shapes, ncur = case
    g = X.Provider()
    t = [np.arange(a * b, dtype=float).reshape(a, b) for a, b in shapes]
    n = p[5] * p[8] * p[9]
    good = p[5] >= 2 and p[8] >= 2 and p[9] >= 1 and p[2] >= 1 and all(s == (ncur, n) for s in shapes) and p[4] > p[3] and p[7] > p[6]
    try:
        r = g.load_table(p, *t, np.ones(ncur))
    except Exception as e:  # noqa: BLE001
        return ([("table", f"refused a valid table: {e!r}")] if good and p[2] >= 1 else []), "error"
    if p[2] < 1:
        good = True                       # the number of field periods is compared with the input's when a run starts
    return ([] if good else [("table", f"accepted parameters {p} with fields {shapes} and {ncur} currents")]), "accepted"


# ---- E: through the scripting interface -----------------------------------------------------------------------------------
def conf_text(conf):
    out = [f"periods {conf[0]}", "begin filament", "mirror NIL"]
    for k, (cur, coils) in enumerate(conf[1]):
        for i, (w, cars) in enumerate(coils):
            for c in cars:
                w_ = (1.0 if w is None else w) * cur
                if c[0] == "circle":
                    out.append(f"{c[2]!r} 0.0 {c[3][2]!r} {w_!r} {k + 1} c{i}")
                else:
                    v = c[2]
                    for j, q in enumerate(v):
                        last = j == len(v) - 1
                        out.append(" ".join(repr(float(x)) for x in q) + (f" 0.0 {k + 1} c{i}" if last else f" {w_!r}"))
    return "\n".join(out + ["end", ""])


def script_case(ctx, case):
    X, v = ctx
    kind, tmp = case[0], case[1]
    bad = []
    w = f"{tmp}/s{os.getpid()}"
    if kind == "coils":
        name, shape, sym, norm = case[2:]
        conf, nfp, symm = configs()[name]
        open(w, "w").write(conf_text(conf))
        p = v.MakegridParameters(normalize_by_currents=norm, assume_stellarator_symmetry=sym, number_of_field_periods=nfp, r_grid_minimum=2.9, r_grid_maximum=3.2,
                                 number_of_r_grid_points=shape[0], z_grid_minimum=-0.25, z_grid_maximum=0.25, number_of_z_grid_points=shape[1], number_of_phi_grid_points=shape[2])
        t = v.MagneticFieldResponseTable.from_coils_file(w, p)
        R, P, Z = E.cyl_grid(nfp, 2.9, 3.2, shape[0], -0.25, 0.25, shape[1], shape[2])
        pts = np.stack([R * np.cos(P), R * np.sin(P), Z], 1)
        for k, (cur, coils) in enumerate(conf[1]):
            w0 = coils[0][0]
            want = cyl(ref(coils, pts) * (1.0 / w0 if norm else cur), P)
            if cur == 0.0:
                continue
            s = max(np.abs(x).max() for x in want)
            for g, x in zip((t.b_r, t.b_p, t.b_z), want):
                if not np.abs(g[k] - x).max() <= 1e-9 * s:
                    bad.append(("from_coils_file", f"{name} circuit {k}"))
        if t.parameters != p:
            bad.append(("from_coils_file", "parameters"))
        u = v.MagneticFieldResponseTable.model_validate_json(t.model_dump_json())
        if not all(np.array_equal(getattr(t, k), getattr(u, k)) for k in ("b_r", "b_p", "b_z")):
            bad.append(("json", "table changed"))
        return bad, "script"
    name = case[2]
    i, t = E.free(v)[name]
    pp = t.parameters
    tup = tuple(getattr(pp, k) for k in type(pp).model_fields)

    def mkt(par, *a):
        return v.MagneticFieldResponseTable(parameters=par, b_r=np.array(a[0]), b_p=np.array(a[1]), b_z=np.array(a[2]))

    def go(inp, tab):
        return v.run(inp, magnetic_field=tab, max_threads=1, verbose=False).wout
    i = E.derive(i, nstep=1000)
    base = go(i, t)
    f0 = E.wout_fields(base)

    def cmp(w2, what, tol):
        for k, x in E.wout_fields(w2).items():
            y = f0[k]
            if k in ("extcur", "curlabel", "nextcur", "mgrid_mode", "mgrid_file", "input_extension") or np.asarray(x).dtype.kind not in "fiub":
                continue
            x, y = np.asarray(x, float), np.asarray(y, float)
            if x.shape != y.shape or (tol == 0 and not np.array_equal(x, y, equal_nan=True)):
                bad.append((what, f"{k} differs"))
                return
        if tol:
            for k in ("rmnc", "zmns", "iotaf", "presf", "volume_p", "aspect", "b0"):
                x, y = np.asarray(getattr(w2, k)), np.asarray(getattr(base, k))
                if not np.abs(x - y).max() <= tol * np.abs(y).max():
                    bad.append((what, f"{k} deviates by {np.abs(x - y).max():.2e}"))
                    return
    sub = case[3]
    n = t.b_r.shape[0]
    if sub == "file":
        X.write(w, tup, np.ones(n), t.b_r, t.b_p, t.b_z, None)
        cmp(v.run(E.derive(i, mgrid_file=w), max_threads=1, verbose=False).wout, "mgrid file vs table in memory", 0)
    elif sub == "scale":
        cmp(go(E.derive(i, extcur=i.extcur / 4), mkt(pp, 4 * t.b_r, 4 * t.b_p, 4 * t.b_z)), "field scaled, current divided", 0)
    elif sub == "split":          # one circuit split in two
        ex = np.concatenate([i.extcur, i.extcur[-1:] * 0.25])
        ex[n - 1] *= 0.75
        cmp(go(E.derive(i, extcur=ex), mkt(pp, *[np.vstack([x, x[-1:]]) for x in (t.b_r, t.b_p, t.b_z)])), "circuit split in two", 1e-6)
    elif sub == "order":
        cmp(go(E.derive(i, extcur=i.extcur[::-1].copy()), mkt(pp, *[x[::-1].copy() for x in (t.b_r, t.b_p, t.b_z)])), "order of the circuits", 1e-6)
    elif sub == "edit":           # a table made by the native code, then edited by the user
        cpp = t._to_cpp_magnetic_field_response_table() if hasattr(t, "_to_cpp_magnetic_field_response_table") else None
        conv = getattr(v.MagneticFieldResponseTable, "_from_cpp_magnetic_field_response_table", None)
        if cpp is None or conv is None:
            return bad, "script"
        t2 = conv(cpp)
        cmp(go(i, t2), "native table", 0)
        dz = 0.125
        for how in ("parameters", "copy", "field"):
            t2 = conv(cpp)
            if how == "field":
                t2.b_z = t2.b_z * 1.5
                ref_t = mkt(pp, t.b_r, t.b_p, t.b_z * 1.5)
            else:
                q = pp.model_copy(update=dict(r_grid_minimum=pp.r_grid_minimum * 0.99, r_grid_maximum=pp.r_grid_maximum * 0.99))
                ref_t = mkt(q, t.b_r, t.b_p, t.b_z)
                if how == "parameters":
                    t2.parameters = q
                else:
                    t2 = t2.model_copy(update=dict(parameters=q))
            outs = []
            for tab in (t2, ref_t):
                try:
                    outs.append(go(E.derive(i, return_outputs_even_if_not_converged=True), tab).rmnc)
                except Exception as e:  # noqa: BLE001
                    outs.append(np.array([float("nan")]))
            if not np.array_equal(*outs, equal_nan=True):
                bad.append(("edited table", f"change of {how} ignored"))
    elif sub == "bad":
        nz = pp.number_of_phi_grid_points
        cases = {"extra current": (E.derive(i, extcur=np.append(i.extcur, 1.0)), t), "missing current": (E.derive(i, extcur=i.extcur[:-1]), t),
                 "fewer planes": (i, mkt(pp.model_copy(update=dict(number_of_phi_grid_points=nz + 1)), *[np.tile(x, (1, 1 + 1 // 1)) [:, :x.shape[1] // nz * (nz + 1)] if nz == 1 else np.hstack([x, x[:, :x.shape[1] // nz]]) for x in (t.b_r, t.b_p, t.b_z)])),
                 "short table": (i, mkt(pp, t.b_r[:, :-1], t.b_p[:, :-1], t.b_z[:, :-1])),
                 "tiny table": (i, mkt(pp, t.b_r[:, :1], t.b_p[:, :1], t.b_z[:, :1])),
                 "no file": (E.derive(i, mgrid_file=w + "_none"), None)}
        if nz > 1:
            cases["other field periods"] = (i, mkt(pp.model_copy(update=dict(number_of_field_periods=pp.number_of_field_periods + 1)), t.b_r, t.b_p, t.b_z))
        for k, (inp, tab) in cases.items():
            try:
                go(inp, tab)
                bad.append((k, "accepted"))
            except Exception:  # noqa: BLE001
                pass
    return bad, "script"


def bad_write_case(ctx, case):
    X, _ = ctx
    tmp, k = case
    p = (False, False, 3, 1.25, 2.5, 3, -0.5, 0.75, 4, 2)
    f, cur, t = f"{tmp}/bw{k}", np.ones(2), fill(2, 24)
    if k == 0:
        f = f"{tmp}/none/x.nc"
    elif k == 1:
        f = tmp
    elif k == 2:
        cur = np.ones(3)
    elif k == 3:
        t, cur = tuple(np.zeros((0, 24)) for _ in range(3)), np.ones(0)
    elif k == 4:
        f = ""
    try:
        X.write(f, p, cur, *t, None)
    except Exception:  # noqa: BLE001
        return [], "error"
    return [("write", f"impossible request {k} accepted")], "accepted"


FN = {"badwrite": bad_write_case, "table": table_case, "field": field_case, "file": file_case, "badfile": bad_file_case, "badtable": bad_table_case, "script": script_case}


def run():
    c = vlib.Check("F02", "exploration",
                   "coil sets (loops, periodic and symmetric polygons, mixed windings, asymmetric) x all grid shapes up to 3x4x6 x symmetry x normalisation; all "
                   "combinations of up to 2 circuits of 8 coil kinds; all file shapes up to 4x4x3 with up to 12 circuits; every variable of an mgrid file dropped, "
                   "retyped, reshaped, every cut of the file; all table size mismatches; free-boundary runs from file/memory/rescaled/split/edited tables",
                   ["field formulas of the circular and polygonal filament come from harness-side library stand-in shim/abscab (the original is not available offline)"])
    vlib.build(["x_coils", "_vmecpp"])
    th = c.thorough
    with vlib.scratch("f02") as tmp:
        cases = []
        shapes = list(it.product((2, 3) + ((5,) if th else ()), (2, 3, 4), (1, 2, 3, 4, 6)))
        for name, (conf, nfp, symm) in configs().items():
            for sh in shapes:
                for norm in (False, True):
                    for pot in (False, True):
                        cases.append(("table", (name, sh, False, norm, None, pot)))
                        if symm:
                            cases.append(("table", (name, sh, True, norm, None, pot)))
            for pot in (False, True):
                cases.append(("table", (name, (3, 4, 3), False, False, -0.1, pot)))
                if symm:
                    cases.append(("table", (name, (3, 4, 4), True, False, -0.1, pot)))
        ks = "cnple0um"
        one = [k for k in ks] + ["".join(x) for x in it.product(ks, repeat=2)]
        for a in one:
            for n in (1, 3):
                cases.append(("field", ((a,), (2.0,), n, 0.5)))
        for a, b in it.product(one if th else ks, ks):
            for cur in ((2.0, -3.0), (0.0, 1.5), (None, 2.0)):
                cases.append(("field", ((a, b), cur, 2, 0.0)))
        for sh in it.product((2, 3, 4), (2, 3, 4), (1, 2, 3)):
            for nc in (1, 2, 12):
                for norm, pot in ((False, False), (True, False), (False, True)):
                    cases.append(("file", (sh, nc, norm, pot, str(tmp))))
        base = (False, False, 3, 1.25, 2.5, 3, -0.5, 0.75, 4, 2)
        r = vlib.pmap([(str(tmp / "base.nc"), base)], lambda ctx, x: ctx[0].write(*x, np.ones(2), *fill(2, 24), None), init, nproc=1)[0]
        if r.kind != "ok":
            c.fail("write", r)
            return c
        size = (tmp / "base.nc").stat().st_size
        names = ["ir", "jz", "kp", "nfp", "nextcur", "rmin", "rmax", "zmin", "zmax", "mgrid_mode", "br_001", "bp_001", "bz_001", "br_002", "bp_002", "bz_002"]
        muts = [("drop", k, None) for k in names] + [("type", k, t) for k in names[:9] for t in ("S1",)]
        muts += [("dim", k, a) for k in names[10:] for a in ("swap", "extra", "odd", "less")] + [("dim", k, "extra") for k in names[:9]]
        muts += [("value", k, x) for k in names[:5] for x in (0, 1, -1, 5, 2**31 - 1, -2**31)] + [("value", k, x) for k in names[5:9] for x in (0.0, 99.0, -99.0, float("nan"))]
        muts += [("raw", "", x) for x in (b"", b"CDF", b"garbage" * 9, b"\x89HDF\r\n\x1a\n")] + [("path", "", x) for x in (str(tmp / "none"), str(tmp), "")]
        for m in muts:
            for ncur in (2, 1):
                cases.append(("badfile", (str(tmp), m, ncur)))
        for ncur in (0, 1, 2, 3):
            cases.append(("badfile", (str(tmp), ("same", "", None), ncur)))
        for n in range(0, size, 1 if th else 13):
            cases.append(("badfile", (str(tmp), ("cut", "", n), 2)))
        for nr, nz, nphi in it.product((0, 1, 2, 3), (1, 2), (0, 1, 2)):
            p = (False, False, 1, 1.0, 2.0, nr, -1.0, 1.0, nz, nphi)
            n = nr * nz * nphi
            for k in (0, 1, 2):
                cases.append(("badtable", (p, ((k, n),) * 3, k)))
        p = (False, False, 1, 1.0, 2.0, 3, -1.0, 1.0, 2, 2)
        for sh in it.product(((1, 12), (2, 12), (2, 11), (2, 13), (3, 12), (0, 0)), repeat=3):
            cases.append(("badtable", (p, sh, 2)))
        for q in ((3, 2.0), (3, 3.0), (4, 1.0), (6, 1.0), (7, -1.0), (2, 0), (2, -1)):
            pq = list(p)
            pq[q[0]] = q[1]
            cases.append(("badtable", (tuple(pq), ((2, 12),) * 3, 2)))
        for name, (conf, nfp, symm) in configs().items():
            if name not in ("nowind", "asym"):          # not expressible in a coils file
                for sh in ((3, 4, 2), (2, 3, 3), (4, 3, 4)):
                    for sym in (False, True):
                        for norm in (False, True):
                            if not sym or (symm and sh[2] % 2 == 0):
                                cases.append(("script", ("coils", str(tmp), name, sh, sym, norm)))
        for k in range(5):
            cases.append(("badwrite", (str(tmp), k)))
        for name in ("solf", "cthf"):
            for sub in ("file", "scale", "split", "order", "edit", "bad"):
                cases.append(("script", ("solve", str(tmp), name, sub)))
        cases.sort(key=lambda x: x[0] != "script")
        for cs, r in zip(cases, vlib.pmap(cases, lambda ctx, x: FN[x[0]](ctx, x[1]), init, timeout=120)):
            key = f"{cs[0]}:" + (",".join(str(x) for x in cs[1] if not str(x).startswith("/tmp")) if cs[0] in ("script",) else "")
            rp = {"case": repr(cs)}
            if cs[0] in ("badfile", "badtable"):
                key += repr(cs[1][1])[:70] if cs[0] == "badfile" else ""
            if r.kind != "ok":
                c.fail(f"{key}:{r.kind}", f"{cs}: {str(r.value)[-300:]}", rp)
                continue
            bad, kind = r.value
            c.seen(f"{cs[0]}:{kind}")
            for k, d in bad:
                c.fail(f"{key}:{k}", f"{cs}: {d}"[-900:], rp)
        c.cov["cases"] = len(cases)
        for a in (("l", 1.0), ("m", 2.5)):
            pass
    return c


vlib.main(run)
