"""Small equilibria and an independent coil-field table used by the solver-level checks."""
import logging
import numpy as np

TD = "/repo/src/vmecpp/cpp/vmecpp/test_data/"


def A(*x):
    return np.array(x, dtype=np.int64 if all(isinstance(i, int) for i in x) else float)


def mk(v, name, **kw):
    """Input from a test-data file with some fields replaced (re-validated)."""
    i = v.VmecInput.from_file(TD + name + ".json")
    d = {k: getattr(i, k) for k in type(i).model_fields}
    d.update(kw)
    return v.VmecInput(**d)


def derive(i, **kw):
    d = {k: getattr(i, k) for k in type(i).model_fields}
    d.update(kw)
    for k, x in d.items():
        if isinstance(x, np.ndarray):
            d[k] = x.copy()
    return type(i)(**d)


def stages(i, ns, ftol, niter):
    ns, ftol, niter = list(ns), list(ftol), list(niter)
    return derive(i, ns_array=np.array(ns, dtype=np.int64), ftol_array=np.array(ftol, dtype=float),
                  niter_array=np.array(niter, dtype=np.int64))


def one(i, ns, ftol=1e-12, niter=5000, **kw):
    return stages(derive(i, **kw), [ns], [ftol], [niter])


def fixed(v):
    """name -> single-stage fixed-boundary input (each a fraction of a second)."""
    e = {}
    e["sol"] = one(mk(v, "solovev"), 9)
    e["solan"] = one(mk(v, "solovev_analytical"), 9, 1e-13)                      # current profile, high beta
    e["circ"] = one(mk(v, "circular_tokamak"), 7, 1e-13)                          # zero pressure
    e["udas"] = one(mk(v, "up_down_asym"), 7, 1e-12)                              # axisymmetric, lasym
    e["cth"] = one(mk(v, "cth_like_fixed_bdy", mpol=4, ntor=3, nzeta=14, raxis_c=mk(v, "cth_like_fixed_bdy").raxis_c[:4],
                      zaxis_s=mk(v, "cth_like_fixed_bdy").zaxis_s[:4]), 7, 1e-12)   # 3d, nfp=5, negative flux, given current
    e["li"] = one(mk(v, "li383_low_res"), 7, 1e-12)                               # 3d, nfp=3, pressure and current
    e["cma"] = one(mk(v, "cma", mpol=4, ntor=4, raxis_c=mk(v, "cma").raxis_c[:5], zaxis_s=mk(v, "cma").zaxis_s[:5]), 7, 1e-11)
    e["ell"] = ell(v, False)                                                      # 3d, nfp=3, iota profile, pressure
    e["ela"] = ell(v, True)                                                       # same without stellarator symmetry
    return e


def ell(v, lasym, nfp=3, mpol=4, ntor=2, amp=0.03, ns=7, ftol=1e-12, niter=3000, **kw):
    """Rotating-ellipse stellarator with an iota profile and pressure."""
    p = 1000.0
    rbc, n = np.zeros((mpol, 2 * ntor + 1)), ntor
    zbs = rbc.copy()
    rbc[0, n], rbc[0, n + 1], rbc[1, n], rbc[1, n + 1], rbc[2, n] = 1.0, 0.03, 0.2, 0.04, 0.01
    zbs[0, n + 1], zbs[1, n], zbs[1, n + 1], zbs[2, n] = -0.03, 0.25, -0.04, 0.005
    d = dict(lasym=lasym, nfp=nfp, mpol=mpol, ntor=ntor, rbc=rbc, zbs=zbs, raxis_c=np.array([1.0, 0.02] + [0.0] * (ntor - 1)),
             zaxis_s=np.array([0.0, -0.02] + [0.0] * (ntor - 1)), am=np.array([p, -p]), phiedge=0.1, delt=0.7, ai=np.array([0.6, 0.2]))
    if lasym:
        rbs, zbc = np.zeros_like(rbc), np.zeros_like(rbc)
        rbs[1, n], rbs[2, n], rbs[1, n + 1], rbs[0, n + 1] = 0.5 * amp, -0.5 * amp, amp, 0.5 * amp
        zbc[1, n], zbc[2, n], zbc[1, n - 1], zbc[0, n + 1], zbc[0, n] = amp, amp / 2, -amp / 2, amp, amp
        d |= dict(rbs=rbs, zbc=zbc, raxis_s=np.zeros(ntor + 1), zaxis_c=np.array([amp] + [0.0] * ntor))
    return stages(v.VmecInput(**(d | kw)), [ns], [ftol], [niter])


# ------------------------------------------------------------------ coils
def parse_coils(path):
    """List over circuits of [(filament, current)] of a MAKEGRID coils file (independent parser).
    A filament is a (n,3) polygon or ('loop', radius, z)."""
    out, cur, I, on = {}, [], 0.0, False
    for ln in open(path):
        t = ln.split()
        if not on:
            on = t[:2] == ["begin", "filament"]
            continue
        if t[:1] in (["mirror"], ["end"]) or not t:
            continue
        if len(t) == 4:
            cur.append([float(x) for x in t[:3]])
            I = float(t[3])
        elif not cur:
            out.setdefault(int(t[4]), []).append((("loop", float(t[0]), float(t[2])), float(t[3])))
        else:
            cur.append([float(x) for x in t[:3]])
            out.setdefault(int(t[4]), []).append((np.array(cur), I))
            cur = []
    return [out[k] for k in sorted(out)]


def loop_field(a, z0, current, R, Z):
    """(B_R, B_Z) of a circular loop around the z axis"""
    from scipy.special import ellipe, ellipk
    z = Z - z0
    q = (a + R) ** 2 + z ** 2
    m = 4 * a * R / q
    K, E = ellipk(m), ellipe(m)
    d = (a - R) ** 2 + z ** 2
    f = 2e-7 * current / np.sqrt(q)
    return f * z / R * (-K + (a * a + R * R + z * z) / d * E), f * (K + (a * a - R * R - z * z) / d * E)


def segment_field(verts, current, pts):
    """Field of a polygonal filament at pts (n,3); exact finite-segment formula."""
    b = np.zeros_like(pts)
    for p, q in zip(verts[:-1], verts[1:]):
        ri, rf = pts - p, pts - q
        ni, nf = np.linalg.norm(ri, axis=1), np.linalg.norm(rf, axis=1)
        c = np.cross(ri, rf)
        b += (1e-7 * current * (ni + nf) / (ni * nf * (ni * nf + np.einsum("ij,ij->i", ri, rf))))[:, None] * c
    return b


def cyl_grid(nfp, rmin, rmax, nr, zmin, zmax, nz, nphi):
    """points in [phi][z][r] order and their angle"""
    r, z = np.linspace(rmin, rmax, nr), np.linspace(zmin, zmax, nz)
    phi = 2 * np.pi / nfp * np.arange(nphi) / nphi
    P, Z, R = np.meshgrid(phi, z, r, indexing="ij")
    return R.ravel(), P.ravel(), Z.ravel()


def table(v, coils, nfp, rmin, rmax, nr, zmin, zmax, nz, nphi, axisym=False):
    """Response table computed independently of the code under test (field per circuit at file current)."""
    R, P, Z = cyl_grid(nfp, rmin, rmax, nr, zmin, zmax, nz, nphi)
    pts = np.stack([R * np.cos(P), R * np.sin(P), Z], axis=1)
    br, bp, bz = [], [], []
    for circ in coils:
        r, p, zz = np.zeros_like(R), np.zeros_like(R), np.zeros_like(R)
        for c, I in circ:
            if isinstance(c, tuple):
                x, y = loop_field(c[1], c[2], I, R, Z)
                r += x
                zz += y
            else:
                b = segment_field(c, I, pts)
                r += b[:, 0] * np.cos(P) + b[:, 1] * np.sin(P)
                p += -b[:, 0] * np.sin(P) + b[:, 1] * np.cos(P)
                zz += b[:, 2]
        br.append(r)
        bp.append(p)
        bz.append(zz)
    m = v.MakegridParameters(normalize_by_currents=False, assume_stellarator_symmetry=False, number_of_field_periods=nfp,
                             r_grid_minimum=rmin, r_grid_maximum=rmax, number_of_r_grid_points=nr, z_grid_minimum=zmin,
                             z_grid_maximum=zmax, number_of_z_grid_points=nz, number_of_phi_grid_points=nphi)
    return v.MagneticFieldResponseTable(parameters=m, b_r=np.array(br), b_p=np.array(bp), b_z=np.array(bz))


def shift(coils, dz):
    return [[((*f[:2], f[2] + dz) if isinstance(f, tuple) else f + np.array([0, 0, dz]), I) for f, I in circ] for circ in coils]


def lift(i, dz, eps=0.0):
    """the same free-boundary problem without assumed symmetry, first guess lifted by dz and tilted by eps"""
    z = np.zeros_like(i.zbs)
    z[0, i.ntor], z[1, i.ntor] = dz, eps
    return derive(i, lasym=True, rbs=np.zeros_like(z), zbc=z, raxis_s=0 * i.raxis_c, zaxis_c=np.array([float(dz)] + [0.0] * i.ntor))


def cut(x, n):
    return np.asarray(x)[:n + 1]


def free(v):
    """name -> (input, response table) of small free-boundary cases"""
    e = {}
    c = parse_coils(TD + "coils.solovev")
    i = mk(v, "solovev_free_bdy", mpol=6)
    e["solf"] = (one(i, 9, 1e-10), table(v, c, 1, 2.0, 6.0, 81, -2.0, 2.0, 81, 1))
    c = parse_coils(TD + "coils.cth_like")
    i = mk(v, "cth_like_free_bdy")
    i = derive(i, mpol=4, ntor=3, nzeta=12, raxis_c=cut(i.raxis_c, 3), zaxis_s=cut(i.zaxis_s, 3))
    e["cthf"] = (one(i, 7, 1e-9), table(v, c, 5, 0.45, 1.05, 41, -0.3, 0.3, 41, 12))
    # all coils shifted vertically: the equilibrium is that of the unshifted coils, shifted
    e["cthfa"] = (lift(e["cthf"][0], 0.01, 0.01), table(v, shift(c, 0.01), 5, 0.45, 1.05, 41, -0.29, 0.31, 41, 12))
    i = derive(e["solf"][0], ntheta=20)
    e["solfa"] = (lift(i, 0.1, 0.1), table(v, shift(parse_coils(TD + "coils.solovev"), 0.1), 1, 2.0, 6.0, 81, -1.9, 2.1, 81, 1))
    e["solfa"] = (stages(e["solfa"][0], [9], [1e-9], [5000]), e["solfa"][1])
    return e


def quiet():
    logging.disable(logging.CRITICAL)


def wout_fields(w):
    """numeric fields of a wout as arrays"""
    out = {}
    for k in type(w).model_fields:
        x = getattr(w, k)
        if isinstance(x, (bool, str)) or x is None:
            continue
        if isinstance(x, (int, float, np.floating, np.integer)):
            out[k] = np.asarray(float(x))
        elif isinstance(x, np.ndarray) and x.dtype.kind in "fiu":
            out[k] = np.asarray(x, dtype=float)
    return out


SKIP = {"fsqr", "fsqz", "fsql", "fsqt", "force_residual_r", "force_residual_z", "force_residual_lambda", "wdot",
        "delbsq", "mhd_energy", "restart_reason_timetrace", "itfsq", "niter", "ftolv"}


def wdiff(a, b, fields=None, skip=SKIP):
    """largest difference of two wouts relative to the size of each field -> (value, field)"""
    fa, fb = wout_fields(a), wout_fields(b)
    worst = (0.0, "")
    for k in (fields or (set(fa) | set(fb)) - set(skip)):
        if k not in fa or k not in fb or fa[k].shape != fb[k].shape:
            return (float("inf"), k)
        if fa[k].size == 0:
            continue
        x, y = fa[k], fb[k]
        if not np.array_equal(np.isfinite(x), np.isfinite(y)):
            return (float("inf"), k)
        m = np.isfinite(x)
        s = max(np.max(np.abs(x[m]), initial=0), np.max(np.abs(y[m]), initial=0))
        if s == 0:
            continue
        d = np.max(np.abs(x[m] - y[m]), initial=0) / s
        if d > worst[0]:
            worst = (float(d), k)
    return worst


# quantities that are the difference of nearly cancelling numbers are compared relative to a physical scale
def mx(x):
    return np.max(np.abs(x), where=np.isfinite(x), initial=0)


SCALE = {"equif": lambda f: max(1.0, mx((f["equif"]))),
         "currumnc": lambda f: mx((f["bsubumnc"])) / 4e-7 / np.pi + mx((f["currumnc"])),
         "currumns": lambda f: mx((f["bsubumnc"])) / 4e-7 / np.pi + mx((f["currumnc"])),
         "currvmnc": lambda f: mx((f["bsubvmnc"])) / 4e-7 / np.pi + mx((f["currumnc"])),
         "currvmns": lambda f: mx((f["bsubvmnc"])) / 4e-7 / np.pi + mx((f["currumnc"])),
         "jcurv": lambda f: mx((f["bvco"])) / 4e-7 / np.pi, "jcuru": lambda f: mx((f["bvco"])) / 4e-7 / np.pi,
         "ctor": lambda f: mx((f["bvco"])) / 4e-7 / np.pi,
         "buco": lambda f: mx((f["bvco"])), "jdotb": lambda f: mx((f["bvco"])) * mx(f["b0"]) / 4e-7 / np.pi,
         "bdotb": lambda f: mx((f["bdotb"])),
         "DMerc": lambda f: mx((f["DMerc"])) + mx((f["DShear"])) + mx((f["DWell"])) + mx((f["DCurr"])) + mx((f["DGeod"])),
         }
for _k in ("DShear", "DWell", "DCurr", "DGeod"):
    SCALE[_k] = SCALE["DMerc"]


AXIS = {"raxis_cc", "raxis_cs", "zaxis_cs", "zaxis_cc"}


def fdiff(a, b, fa=None, fb=None, skip=("restart_reason_timetrace", "niter")):
    """all fields: largest difference relative to the size of the field (or its physical scale)"""
    fa, fb = fa or wout_fields(a), fb or wout_fields(b)
    out = []
    for k in sorted(set(fa) | set(fb)):
        if k in skip:
            continue
        if k not in fa or k not in fb or fa[k].shape != fb[k].shape:
            out.append((float("inf"), k))
            continue
        x, y = fa[k], fb[k]
        if not np.array_equal(np.isfinite(x), np.isfinite(y)):
            out.append((float("inf"), k))
            continue
        m = np.isfinite(x)
        s = SCALE[k](fa) if k in SCALE else np.max(np.abs(x[m]), initial=0)
        twin = k.replace("mns", "mnc") if "mns" in k else k.replace("mnc", "mns")
        if k not in SCALE and twin in fa:                # symmetric and non-symmetric part share a scale
            s = max(s, mx(fa[twin]))
        if k in AXIS:
            s = max(s, abs(float(fa["Rmajor_p"])))
        d = np.max(np.abs(x[m] - y[m]), initial=0)
        if d > 0:
            out.append((float(d / s) if s > 0 else (0.0 if d < 1e-13 else float("inf")), k))
    return max(out, default=(0.0, ""))
