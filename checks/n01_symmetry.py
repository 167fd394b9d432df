"""N01: equivalent descriptions of one plasma. Every transformation maps an input to an equivalent
one and the result to the result expected for it; exact equivalences keep even the iteration
history, so they are compared to rounding."""
import itertools as it
import json
import os
import numpy as np
import equil as E
import vlib

TH = os.environ.get("VERIF_TIER") == "thorough"
TOL = 2e-7

# result fields: spectral (cos name, sin name), scalars, profiles; power of length, power of field,
# sign under mirroring (zeta -> -zeta), sign under reversal of the field
SPEC = {"r": ("rmnc", "rmns", 1, 0, 1, 1), "z": ("zmnc", "zmns", 1, 0, 1, 1), "l": ("lmnc", "lmns", 0, 0, 1, 1), "lf": ("lmnc_full", "lmns_full", 0, 0, 1, 1),
        "g": ("gmnc", "gmns", 3, 0, 1, 1), "b": ("bmnc", "bmns", 0, 1, 1, 1), "bu": ("bsubumnc", "bsubumns", 1, 1, -1, -1), "bv": ("bsubvmnc", "bsubvmns", 1, 1, 1, -1),
        "bs": ("bsubsmnc", "bsubsmns", 1, 1, -1, -1), "Bu": ("bsupumnc", "bsupumns", -1, 1, -1, -1), "Bv": ("bsupvmnc", "bsupvmns", -1, 1, 1, -1),
        "Ju": ("currumnc", "currumns", 1, 1, 1, -1), "Jv": ("currvmnc", "currvmns", 1, 1, -1, -1)}
PLAIN = {"wb": (3, 2, 1, 1), "wp": (3, 2, 1, 1), "rmax_surf": (1, 0, 1, 1), "rmin_surf": (1, 0, 1, 1), "zmax_surf": (1, 0, 1, 1), "aspect": (0, 0, 1, 1),
         "betatotal": (0, 0, 1, 1), "betapol": (0, 0, 1, 1), "betator": (0, 0, 1, 1), "betaxis": (0, 0, 1, 1), "b0": (0, 1, 1, -1), "rbtor0": (1, 1, 1, -1),
         "rbtor": (1, 1, 1, -1), "IonLarmor": (0, -1, 1, 1), "ctor": (1, 1, -1, -1), "Aminor_p": (1, 0, 1, 1), "Rmajor_p": (1, 0, 1, 1), "volume": (3, 0, 1, 1),
         "volavgB": (0, 1, 1, 1), "fsqr": (0, 0, 1, 1), "fsqz": (0, 0, 1, 1), "fsql": (0, 0, 1, 1),
         "phipf": (2, 1, 1, -1), "chipf": (2, 1, -1, -1), "jcuru": (1, 1, 1, -1), "jcurv": (1, 1, -1, -1), "jdotb": (-1, 2, -1, 1), "bdotb": (0, 2, 1, 1),
         "bdotgradv": (-1, 1, 1, -1), "DMerc": (-4, -2, 1, 1), "DShear": (-4, -2, 1, 1), "DWell": (-4, -2, 1, 1), "DCurr": (-4, -2, 1, 1), "DGeod": (-4, -2, 1, 1),
         "equif": (0, 0, 1, 1), "buco": (1, 1, -1, -1), "bvco": (1, 1, 1, -1), "phips": (2, 1, 1, -1), "iotas": (0, 0, -1, 1), "iotaf": (0, 0, -1, 1),
         "vp": (3, 0, 1, 1), "presf": (0, 2, 1, 1), "pres": (0, 2, 1, 1), "phi": (2, 1, 1, -1), "chi": (2, 1, -1, -1), "q_factor": (0, 0, -1, 1), "specw": (0, 0, 1, 1),
         "over_r": (-1, 0, 1, 1), "beta_vol": (0, 0, 1, 1)}


class Res:
    """a result in transformable form"""

    def __init__(self, w=None):
        self.s, self.p, self.h, self.skip = {}, {}, None, ()
        if w is None:
            return
        self.nfp = int(w.nfp)
        for q, (c, s, *_r) in SPEC.items():
            d = {}
            for name, part in ((c, 0), (s, 1)):
                x = getattr(w, name, None)
                if x is None or np.size(x) == 0:
                    continue
                nyq = x.shape[0] == len(w.xm_nyq) and name[0] not in "rzl"
                xm, xn = (w.xm_nyq, w.xn_nyq) if nyq else (w.xm, w.xn)
                for j, (m, n) in enumerate(zip(xm, xn)):
                    d.setdefault((int(round(m)), int(round(n))), [0.0, 0.0])[part] = np.array(x[j], dtype=float)
            self.s[q] = d
        for k in PLAIN:
            self.p[k] = np.array(getattr(w, k), dtype=float)
        self.h = np.array([w.force_residual_r, w.force_residual_z, w.force_residual_lambda])
        self.f = E.wout_fields(w)

    def map(self, spec=lambda q, m, n, c, s: (m, n, c, s), plain=lambda k, x: x):
        o = Res()
        o.nfp, o.h, o.f, o.skip = self.nfp, self.h, self.f, self.skip
        for q, d in self.s.items():
            o.s[q] = e = {}
            for (m, n), (c, s) in d.items():
                m2, n2, c2, s2 = spec(q, m, n, c, s)
                if m2 == 0 and n2 < 0:
                    n2, s2 = -n2, -1 * s2
                x = e.setdefault((m2, n2), [0.0, 0.0])
                x[0], x[1] = x[0] + c2, x[1] + s2
        for k, x in self.p.items():
            o.p[k] = plain(k, x)
        return o

    def without(self, *names):
        self.skip += names
        return self


def differ(exp, got, tol, hist):
    """None or a description of the largest disagreement"""
    worst = (0.0, "")
    for q in SPEC:
        A, B = exp.s[q], got.s[q]
        sc = max([np.max(np.abs(x)) for v in A.values() for x in v] + [0.0])
        if q in ("Ju", "Jv"):
            sc = max(sc, max(np.max(np.abs(x)) for u in ("bu", "bv") for v in exp.s[u].values() for x in v) / 4e-7 / np.pi)
        if q == "bs":
            sc = max(sc, max(np.max(np.abs(x)) for v in exp.s["bu"].values() for x in v))
        if q in ("l", "lf"):
            sc = max(sc, 1e-3)
        for k in set(A) | set(B):
            for part in (0, 1):
                a, b = A.get(k, (0.0, 0.0))[part], B.get(k, (0.0, 0.0))[part]
                d = float(np.max(np.abs(np.asarray(a) - np.asarray(b)))) / sc if sc else 0.0
                if not d <= worst[0]:
                    worst = (d, f"{SPEC[q][part]} mode {k}")
    f = {k: exp.p.get(k, v) for k, v in exp.f.items()}
    f["bsubumnc"] = np.concatenate([np.ravel(x) for v in exp.s["bu"].values() for x in v])
    f["bsubvmnc"] = np.concatenate([np.ravel(x) for v in exp.s["bv"].values() for x in v])
    for k in PLAIN:
        a, b = exp.p[k], got.p[k]
        if k in exp.skip:
            continue
        if a.shape != b.shape or not np.array_equal(np.isfinite(a), np.isfinite(b)):
            return (float("inf"), k)
        m = np.isfinite(a)
        sc = E.SCALE[k](f) if k in E.SCALE else np.max(np.abs(a[m]), initial=0)
        if k == "chi" or k == "chipf":
            sc = max(sc, 1e-3 * np.max(np.abs(exp.p["phi" if k == "chi" else "phipf"])))
        if k in ("fsqr", "fsqz", "fsql"):
            sc = max(float(exp.p[x]) for x in ("fsqr", "fsqz", "fsql")) / (1e-4 if hist else 1e-30)
        if k == "q_factor":
            continue
        d = float(np.max(np.abs(a[m] - b[m]), initial=0)) / sc if sc else float(np.max(np.abs(b[m]), initial=0) > 1e-12)
        if not d <= worst[0]:
            worst = (d, k)
    if hist and (exp.h.shape != got.h.shape):
        return (float("inf"), f"number of time steps {exp.h.shape[1]} -> {got.h.shape[1]}")
    return worst if not worst[0] <= tol else None


# ------------------------------------------------------------------ transformations of (input, field table)
def coeffs(i):
    return ("rbc", "zbs") + (("rbs", "zbc") if i.lasym else ())


def axes(i):
    return ("raxis_c", "zaxis_s") + (("raxis_s", "zaxis_c") if i.lasym else ())


def arr(x):
    return np.array(x, dtype=float)


def table(t, roll=None, **kw):
    """copy of a response table with changed grid parameters or field arrays"""
    p = t.parameters
    d = {k: getattr(p, k) for k in type(p).model_fields} | {k: x for k, x in kw.items() if k in type(p).model_fields}
    a = {k: kw.get(k, getattr(t, k)) for k in ("b_r", "b_p", "b_z")}
    return type(t)(parameters=type(p)(**d), **a)


def cube(t, k):
    p = t.parameters
    return np.array(getattr(t, k)).reshape(-1, p.number_of_phi_grid_points, p.number_of_z_grid_points, p.number_of_r_grid_points)


def flat(x):
    return np.ascontiguousarray(x.reshape(x.shape[0], -1))


def t_identity(i, t):
    return i, t, lambda r: r


def t_length(i, t, L=2.0):
    kw = {k: arr(getattr(i, k)) * L for k in coeffs(i) + axes(i)} | dict(phiedge=i.phiedge * L * L, curtor=i.curtor * L)
    if t is not None:
        p = t.parameters
        t = table(t, r_grid_minimum=p.r_grid_minimum * L, r_grid_maximum=p.r_grid_maximum * L, z_grid_minimum=p.z_grid_minimum * L, z_grid_maximum=p.z_grid_maximum * L)
    return E.derive(i, **kw), t, lambda r: r.map(lambda q, m, n, c, s: (m, n, c * L ** SPEC[q][2], s * L ** SPEC[q][2]), lambda k, x: x * L ** PLAIN[k][0])


def t_length3(i, t):
    return t_length(i, t, 1 / 3)


def t_field(i, t, b=2.0):
    kw = dict(phiedge=i.phiedge * b, curtor=i.curtor * b, pres_scale=i.pres_scale * b ** (2 - i.gamma))     # the mass is given relative to flux^gamma
    if t is not None:
        kw["extcur"] = arr(i.extcur) * b
    return E.derive(i, **kw), t, lambda r: r.map(lambda q, m, n, c, s: (m, n, c * b ** SPEC[q][3], s * b ** SPEC[q][3]), lambda k, x: x * b ** PLAIN[k][1])


def t_field3(i, t):
    return t_field(i, t, 3.0)


def t_reverse(i, t):
    kw = dict(phiedge=-i.phiedge, curtor=-i.curtor)
    if t is not None:
        kw["extcur"] = -arr(i.extcur)
    return E.derive(i, **kw), t, lambda r: r.map(lambda q, m, n, c, s: (m, n, c * SPEC[q][5], s * SPEC[q][5]), lambda k, x: x * PLAIN[k][3])


def t_mirror(i, t):
    kw = {k: getattr(i, k)[:, ::-1].copy() for k in coeffs(i)}
    kw |= {k: arr(getattr(i, k)) * (-1 if k.endswith("_s") else 1) for k in axes(i)}
    kw |= dict(curtor=-i.curtor, ai=-arr(i.ai), ai_aux_f=-arr(i.ai_aux_f))
    if t is not None:
        rev = lambda x: flat(np.roll(x[:, ::-1], 1, axis=1))  # noqa: E731
        t = table(t, b_r=-rev(cube(t, "b_r")), b_p=rev(cube(t, "b_p")), b_z=-rev(cube(t, "b_z")))
    return E.derive(i, **kw), t, lambda r: r.map(lambda q, m, n, c, s: (m, -n, c * SPEC[q][4], s * SPEC[q][4]), lambda k, x: x * PLAIN[k][2])


def rot(i, t, num, den):
    """rotate by num/den of a field period; f'(zeta) = f(zeta + alpha)"""
    a = 2 * np.pi / i.nfp * num / den
    nt = i.ntor
    kw = {}
    n = np.arange(-nt, nt + 1)
    d = n * i.nfp * a
    C, S = np.cos(d), np.sin(d)
    if 2 * num == den:
        S = S * 0
        C = (-1.0) ** n
    z = np.zeros_like(i.rbc)
    rbc, zbs = i.rbc, i.zbs
    rbs, zbc = (i.rbs, i.zbc) if i.lasym else (z, z)
    kw["rbc"], kw["zbs"] = rbc * C - rbs * S, zbs * C + zbc * S
    if i.lasym:
        kw["rbs"], kw["zbc"] = rbs * C + rbc * S, zbc * C - zbs * S
    na = np.arange(nt + 1)
    ca, sa = C[nt:], S[nt:]
    # the axis coefficients are R = sum raxis_c cos(n zeta) - raxis_s sin(n zeta), Z = sum zaxis_c cos - zaxis_s sin, like m=0 of the boundary
    rc, zs = arr(i.raxis_c)[:nt + 1], arr(i.zaxis_s)[:nt + 1]
    rs, zc = (arr(i.raxis_s)[:nt + 1], arr(i.zaxis_c)[:nt + 1]) if i.lasym else (0 * na, 0 * na)
    kw["raxis_c"], kw["zaxis_s"] = rc * ca - rs * sa, zs * ca + zc * sa
    if i.lasym:
        kw["raxis_s"], kw["zaxis_c"] = rs * ca + rc * sa, zc * ca - zs * sa
    if t is not None:
        k = t.parameters.number_of_phi_grid_points
        assert (num * k) % den == 0
        t = table(t, **{q: flat(np.roll(cube(t, q), -num * k // den, axis=1)) for q in ("b_r", "b_p", "b_z")})

    def back(q, m, xn, c, s):
        x = xn * a
        if 2 * num == den:
            f = (-1.0) ** round(xn / i.nfp)
            return m, xn, c * f, s * f
        return m, xn, c * np.cos(x) - s * np.sin(x), s * np.cos(x) + c * np.sin(x)
    return E.derive(i, **kw), t, lambda r: r.map(back).without("b0")   # b0 is the field at zeta = 0


def t_halfturn(i, t):
    return rot(i, t, 1, 2)


def t_turn(i, t):
    """by one toroidal grid step (only without assumed symmetry)"""
    nz = i.nzeta or 2 * i.ntor + 4
    i = E.derive(i, nzeta=nz)
    return rot(i, t, 1, nz)


def alternate(r):
    return r.map(lambda q, m, n, c, s: (m, n, c * (-1.0) ** m, s * (-1.0) ** m))


def t_thetashift(i, t):
    """theta -> theta + pi; without assumed symmetry the origin of theta is fixed by the code, so nothing changes"""
    m = np.arange(i.mpol)[:, None]
    return E.derive(i, **{k: getattr(i, k) * (-1.0) ** m for k in coeffs(i)}), t, (lambda r: r) if i.lasym else alternate


def t_thetaturn(i, t, a=0.7):
    """theta -> theta + a"""
    m = np.arange(i.mpol)[:, None]
    C, S = np.cos(m * a), np.sin(m * a)
    return E.derive(i, rbc=i.rbc * C + i.rbs * S, rbs=i.rbs * C - i.rbc * S, zbs=i.zbs * C - i.zbc * S, zbc=i.zbc * C + i.zbs * S), t, lambda r: r


def t_thetareverse(i, t):
    """theta -> -theta, with it the sign of a given rotational transform: the code restores its handedness by theta -> pi - theta"""
    kw = {k: getattr(i, k)[:, ::-1] * (1 if k in ("rbc", "zbc") else -1) for k in coeffs(i)}
    for k in coeffs(i):                                   # m = 0 does not depend on theta
        kw[k][0] = getattr(i, k)[0]
    return E.derive(i, ai=-arr(i.ai), ai_aux_f=-arr(i.ai_aux_f), **kw), t, (lambda r: r) if i.lasym and kw["rbc"][1, i.ntor] + kw["zbs"][1, i.ntor] < 0 else alternate


def t_nosymmetry(i, t):
    z = np.zeros_like(i.rbc)
    same = i.rbc[1, i.ntor] + i.zbs[1, i.ntor] > 0        # else the code moves the origin of theta
    return E.derive(i, lasym=True, rbs=z, zbc=z, raxis_s=0 * arr(i.raxis_c), zaxis_c=0 * arr(i.raxis_c)), t, (lambda r: r) if same else alternate


def t_lift(i, t, dz=0.125):
    zbc = i.zbc.copy()
    zbc[0, i.ntor] += dz
    za = arr(i.zaxis_c)
    za[0] += dz
    if t is not None:
        p = t.parameters
        t = table(t, z_grid_minimum=p.z_grid_minimum + dz, z_grid_maximum=p.z_grid_maximum + dz)
    return E.derive(i, zbc=zbc, zaxis_c=za), t, lambda r: r.map(lambda q, m, n, c, s: (m, n, c + dz if q == "z" and (m, n) == (0, 0) else c, s)).without("zmax_surf")


def t_unfold(i, t):
    """all field periods described as one"""
    k = i.nfp
    n1 = i.ntor * k

    def f(x):
        y = np.zeros((x.shape[0], 2 * n1 + 1))
        y[:, ::k] = x
        return y

    def g(x):
        y = np.zeros(n1 + 1)
        y[::k] = arr(x)[:i.ntor + 1]
        return y
    nz = i.nzeta or 2 * i.ntor + 4
    if t is not None:
        t = table(t, number_of_field_periods=1, number_of_phi_grid_points=t.parameters.number_of_phi_grid_points * k,
                  **{q: flat(np.tile(cube(t, q), (1, k, 1, 1))) for q in ("b_r", "b_p", "b_z")})
    return E.derive(i, nfp=1, ntor=n1, nzeta=nz * k, **{q: f(getattr(i, q)) for q in coeffs(i)}, **{q: g(getattr(i, q)) for q in axes(i)}), t, lambda r: r


def t_units(i, t):
    """the same pressure split differently between profile and scale factor"""
    return E.derive(i, am=arr(i.am) * 4, am_aux_f=arr(i.am_aux_f) * 4, pres_scale=i.pres_scale / 4), t, lambda r: r


def t_padding(i, t):
    """Fourier coefficients beyond the resolution, and zero ones, in any order in the document"""
    d = json.loads(i.to_json() if hasattr(i, "to_json") else i.model_dump_json())
    import random
    rnd = random.Random(7)
    for k in coeffs(i):
        x = getattr(i, k)
        L = [{"m": m, "n": n - i.ntor, "value": float(x[m, n])} for m in range(x.shape[0]) for n in range(x.shape[1])]
        L += [{"m": i.mpol, "n": 0, "value": 0.0}, {"m": 0, "n": i.ntor + 2, "value": 0.0}, {"m": i.mpol + 3, "n": -i.ntor - 1, "value": 0.0}]
        rnd.shuffle(L)
        d[k] = L
    import tempfile
    with tempfile.NamedTemporaryFile("w", suffix=".json") as f:
        json.dump(d, f)
        f.flush()
        j = type(i).from_file(f.name)
    return j, t, lambda r: r


T = {"length": t_length, "length/3": t_length3, "field": t_field, "field*3": t_field3, "reversed field": t_reverse, "mirror": t_mirror, "half turn": t_halfturn,
     "grid turn": t_turn, "theta shift": t_thetashift, "theta turn": t_thetaturn, "theta reversed": t_thetareverse, "no symmetry": t_nosymmetry, "lift": t_lift, "unfolded": t_unfold,
     "pressure units": t_units, "padding": t_padding}
RUN = {"raxis": lambda i, f: E.derive(i, raxis_c=arr(i.raxis_c) * f)}


def applies(n, i, t):
    if n in ("lift", "grid turn", "theta turn") and not i.lasym:
        return False
    if n == "no symmetry" and i.lasym:
        return False
    if n == "theta reversed" and i.lasym and (i.rbs[1, i.ntor] or i.zbc[1, i.ntor]):     # the origin of theta is chosen before the handedness
        return False
    if n in ("half turn", "grid turn") and i.ntor == 0:
        return False
    if n == "half turn" and i.nzeta % 2:                    # grid points do not map onto grid points
        return False
    if n == "unfolded" and (i.nfp == 1 or i.ntor == 0):
        return False
    if n == "pressure units" and i.pmass_type not in ("power_series", "cubic_spline", "akima_spline", "line_segment"):
        return False
    if n == "padding" and t is not None:
        return False
    return True


class Ctx:
    def __init__(self):
        self.v = vlib.load_vmecpp()
        E.quiet()
        self.e = {k: (i, None) for k, i in E.fixed(self.v).items()} | E.free(self.v)
        i = self.e["ell"][0]
        self.e["ellx"] = (RUN["raxis"](i, .85), None)            # axis has to be re-guessed
        self.e["elax"] = (RUN["raxis"](self.e["ela"][0], .85), None)
        self.e["ellodd"] = (E.derive(self.e["ellx"][0], nzeta=11), None)
        self.e["elg"] = (E.derive(i, gamma=5. / 3), None)
        self.e["ell2"] = (E.derive(i, nfp=2, ntheta=18, nzeta=10), None)
        j = self.e["ela"][0]
        self.e["elg_a"] = (E.derive(j, ncurr=1, ac=np.array([1., -.5]), pcurr_type="power_series", curtor=2e3), None)
        rbs, zbc = j.rbs.copy(), j.zbc.copy()
        rbs[1, j.ntor] = zbc[1, j.ntor] = 0
        self.e["elz"] = (E.derive(j, rbs=rbs, zbc=zbc), None)
        self.cache = {}

    def run(self, i, t):
        return Res(self.v.run(i, magnetic_field=t, max_threads=1, verbose=False).wout)

    def base(self, name):
        if name not in self.cache:
            self.cache[name] = self.run(*self.e[name])
        return self.cache[name]


def run_exact(c, case):
    _, name, seq = case
    i, t = c.e[name]
    exp = c.base(name)
    back = []
    for n in seq:
        if not applies(n, i, t):
            return None
        i, t, b = T[n](i, t)
        back.append(b)
    for b in back:
        exp = b(exp)
    try:
        got = c.run(i, t)
    except Exception as e:  # noqa: BLE001
        return [(f"{name}: {'+'.join(seq)}", f"fails for the equivalent description: {type(e).__name__} {str(e)[:200]}")]
    slow = name in ("udas", "cthfa", "solfa", "cma", "cthf")
    hist = not slow and not any("3" in n or n == "pressure units" or n == "field" and c.e[name][0].gamma for n in seq)
    tol = TOL if t is None else 1e-4
    if any("3" in n for n in seq) or "lift" in seq or slow:
        tol = 1e-4 if t is None and name != "udas" else 2e-2
    d = differ(exp, got, tol, hist)
    return [] if d is None else [(f"{name}: {'+'.join(seq)}", f"{d[1]} differs by {d[0]:.2e} (tolerance {tol})")]


GRID = {"volume": 1e-9, "aspect": 1e-6, "wb": 1e-4, "wp": 1e-3, "betatotal": 2e-3, "phi": 1e-12, "iotaf": 3e-2, "presf": 1e-2, "vp": 2e-2, "bvco": 1e-3, "rbtor": 1e-4, "ctor": 3e-3}


def run_grid(c, case):
    """other sufficient grids, and intermediate radial stages"""
    _, name, what = case
    i, t = c.e[name]
    A = c.base(name)
    nt, nz = i.ntheta or 2 * i.mpol + 6, i.nzeta or 2 * i.ntor + 4
    kind, *a = what
    if kind == "grid":
        i2 = E.derive(i, ntheta=nt + a[0], nzeta=(nz + a[1]) if i.ntor else i.nzeta)
    else:
        ns = int(i.ns_array[-1])
        i2 = E.stages(i, [x for x in a if x < ns] + [ns], [1e-6] * len([x for x in a if x < ns]) + [float(i.ftol_array[-1])], [1000] * len([x for x in a if x < ns]) + [int(i.niter_array[-1])])
    try:
        B = c.run(i2, t)
    except Exception as e:  # noqa: BLE001
        return [(f"{name}: {what}", f"fails: {type(e).__name__} {str(e)[:200]}")]
    bad = []
    if kind == "grid" and a == [1, 0]:                             # an odd number of poloidal points is rounded down
        d = differ(A, B, 1e-12, True)
        return [] if d is None else [(f"{name}: {what}", f"{d[1]} differs by {d[0]:.2e}")]
    for k, tol in GRID.items():
        x, y = A.p[k], B.p[k]
        s = E.SCALE[k](A.f) if k in E.SCALE else np.max(np.abs(x))
        if k == "iotaf":
            x, y = x[1:-1], y[1:-1]
        if s > 0 and np.max(np.abs(x - y)) > tol * s * (10 if t is not None else 1):
            bad.append((f"{name}: {what}", f"{k}: {np.max(np.abs(x - y)) / s:.2e} (tolerance {tol})"))
    return bad


def run_any(c, case):
    return run_exact(c, case) if case[0] == "exact" else run_grid(c, case)


def check():
    c = vlib.Check("N01", "exploration", "equilibria x equivalent descriptions (singles, pairs of transformations) and grid/stage choices, results compared after transforming them back",
                   ["equivalences that only hold up to discretisation (grids, stages) are compared on integral quantities"])
    vlib.build(["_vmecpp"])
    names = ["sol", "solan", "circ", "cth", "li", "cma", "ell", "ela", "ellx", "elax", "ellodd", "elg", "ell2", "elg_a", "elz", "udas"]
    fr = ["solf", "cthf", "solfa", "cthfa"]
    cs = [("exact", n, (t,)) for n in names + fr for t in T]
    prs = [p for p in it.permutations(T, 2)] if TH else [("no symmetry", b) for b in T if b != "no symmetry"] + [("mirror", "half turn"), ("mirror", "reversed field"), ("theta reversed", "mirror"),
                                                                                                             ("unfolded", "no symmetry"), ("unfolded", "mirror"), ("length", "field")]
    cs += [("exact", n, p) for n in (["cth", "ell", "ela", "li", "ellx", "sol", "solf", "elax"] if TH else ["cth", "ell", "ellx", "elax", "sol"]) for p in prs]
    for n in ["sol", "solan", "circ", "cth", "ell", "ela", "ellx", "elax", "ellodd", "elg", "elg_a"]:
        cs += [("grid", n, ("grid", a, b)) for a in (0, 1, 2, 4, 8) for b in (0, 1, 2, 3, 4, 7) if (a, b) != (0, 0) and not (a == 1 and b)]
        cs += [("grid", n, ("stages", *x)) for x in ((3,), (5,), (3, 5), (4,))]
    out = vlib.pmap(cs, run_any, init=Ctx, timeout=240)
    runs = 0
    for cse, r in zip(cs, out):
        if r.kind != "ok":
            c.fail(f"{r.kind}:{cse[1]}:{cse[2]}", f"{cse} -> {r}", {"case": repr(cse)})
            continue
        if r.value is None:
            continue
        runs += 1
        c.seen((cse[0], cse[1], str(cse[2])[:40]))
        for t, d in r.value:
            c.fail(t, d, {"case": repr(cse)})
    c.cov |= {"cases": runs, "equilibria": len(names) + len(fr), "transformations": len(T)}
    return c


vlib.main(check)
