"""N04: radial profiles vs. independent evaluation of their documented formulas, over an
enumerated space of parameterisations, coefficient sets, knot sets and radii."""
import itertools as it
import math
import numpy as np
from scipy.interpolate import CubicSpline
from scipy.integrate import quad
import vlib

MU0 = 4e-7 * math.pi
ALLOWED = {  # pressure, iota, current
    "power_series": (1, 1, 1), "power_series_i": (0, 0, 1), "gauss_trunc": (1, 0, 1), "sum_atan": (0, 1, 1),
    "two_lorentz": (1, 0, 0), "two_power": (1, 0, 1), "two_power_gs": (1, 0, 1), "akima_spline": (1, 1, 0),
    "akima_spline_i": (0, 0, 1), "akima_spline_ip": (0, 0, 1), "cubic_spline": (1, 1, 0), "cubic_spline_i": (0, 0, 1),
    "cubic_spline_ip": (0, 0, 1), "pedestal": (1, 0, 1), "rational": (1, 1, 1), "line_segment": (1, 1, 0),
    "line_segment_i": (0, 0, 1), "line_segment_ip": (0, 0, 1), "nice_quadratic": (0, 1, 0), "sum_cossq_s": (0, 0, 1),
    "sum_cossq_sqrts": (0, 0, 1), "sum_cossq_s_free": (0, 0, 1)}
UNIMPL = {"sum_cossq_s", "sum_cossq_sqrts", "sum_cossq_s_free"}
GX, GW = np.polynomial.legendre.leggauss(10)
GX, GW = 0.5 * (GX + 1), 0.5 * GW


def cget(c, i):
    return float(c[i]) if i < len(c) else 0.0


def raw(t, c, x, cur):
    """Closed-form profiles. For the current, returns ('prime', f) if f must be integrated."""
    if t == "power_series":
        if cur:
            return sum(ci / (i + 1) * x ** (i + 1) for i, ci in enumerate(c))
        return sum(ci * x ** i for i, ci in enumerate(c))
    if t == "power_series_i":
        return sum(ci * x ** (i + 1) for i, ci in enumerate(c))
    if t == "gauss_trunc":
        e1 = math.exp(-1 / c[1] ** 2)
        if cur:
            return ("prime", lambda s: c[0] * (math.exp(-(s / c[1]) ** 2) - e1))
        return c[0] * (math.exp(-(x / c[1]) ** 2) - e1) / (1 - e1)
    if t == "sum_atan":
        r = c[0]
        for k in range(1, len(c) - 3, 4):
            a, b, p, q = c[k:k + 4]
            r += a if x >= 1 else a * 2 / math.pi * math.atan2(b * x ** p, (1 - x) ** q)
        return r
    if t == "two_lorentz":
        def lor(w, p, q):
            g = lambda s: (1 + (s / w ** 2) ** p) ** -q
            return (g(x) - g(1)) / (1 - g(1))
        return c[0] * (c[1] * lor(*c[2:5]) + (1 - c[1]) * lor(*c[5:8]))
    if t in ("two_power", "two_power_gs"):
        def f(s):
            v = c[0] * (1 - s ** c[1]) ** c[2]
            if t == "two_power_gs":
                v *= 1 + sum(cget(c, i) * math.exp(-((s - cget(c, i + 1)) / cget(c, i + 2)) ** 2)
                             for i in range(3, 19, 3) if cget(c, i) != 0)
            return v
        return ("prime", f) if cur else f(x)
    if t == "pedestal":
        th = math.tanh
        if cur:
            v = sum(cget(c, i) / (i + 1) * x ** (i + 1) for i in range(8))
            w, p = cget(c, 11), cget(c, 10)
            if w > 0:
                v += cget(c, 8) * (th(2 * p / w) - th(2 * (p - math.sqrt(x)) / w)) / (th(2 * p / w) - th(2 * (p - 1) / w))
            for a in (13, 17):
                w = max(cget(c, a + 3), 0.01)
                v += cget(c, a) * (th((x - cget(c, a + 2)) / w) - th(-cget(c, a + 2) / w))
            return v
        v = sum(cget(c, i) * x ** i for i in range(16))
        w, p = cget(c, 19), cget(c, 18)
        if w > 0:
            v += cget(c, 17) * (th(2 * (p - math.sqrt(x)) / w) - th(2 * (p - 1) / w)) / (th(2 * p / w) - th(2 * (p - 1) / w))
        return v
    if t == "rational":
        n = sum(cget(c, i) * x ** i for i in range(10))
        d = sum(cget(c, i) * x ** (i - 10) for i in range(10, len(c)))
        return n / d if d != 0 else np.finfo(float).max
    if t == "nice_quadratic":
        return cget(c, 0) * (1 - x) + cget(c, 1) * x + 4 * cget(c, 2) * x * (1 - x)
    raise KeyError(t)


def akima_poly(k, v):
    """Akima's 1970 construction with quadratically extrapolated end points, as PPoly pieces."""
    k, v = np.array(k, float), np.array(v, float)
    n = len(k)
    def quad_through(i):  # through three points starting at i
        return np.polynomial.polynomial.Polynomial.fit(k[i:i + 3], v[i:i + 3], 2)
    L, R = quad_through(0), quad_through(n - 3)
    xl = [k[0] - (k[2] - k[0]), k[1] - (k[2] - k[0])]
    xr = [k[n - 2] + (k[n - 1] - k[n - 3]), k[n - 1] + (k[n - 1] - k[n - 3])]
    X = np.array(xl + list(k) + xr)
    Y = np.array([L(x) for x in xl] + list(v) + [R(x) for x in xr])
    m = np.diff(Y) / np.diff(X)
    return X, Y, m


class Akima:
    def __init__(self, k, v):
        X, Y, m = akima_poly(k, v)
        n = len(k)
        self.k, self.v = np.array(k, float), np.array(v, float)
        t, self.amb = np.zeros(n), np.zeros(n, bool)
        sc = max(1e-30, np.abs(m).max())
        for i in range(n):
            j = i + 2
            w1, w2 = abs(m[j + 1] - m[j]), abs(m[j - 1] - m[j - 2])
            # weights that vanish up to rounding make the slope ill-conditioned there
            self.amb[i] = 0 < w1 + w2 < 1e-9 * sc or (w1 + w2 <= 1e-9 * sc)
            t[i] = 0.5 * (m[j - 1] + m[j]) if w1 + w2 <= 1e-9 * sc else (w1 * m[j - 1] + w2 * m[j]) / (w1 + w2)
        self.t = t
        from scipy.interpolate import CubicHermiteSpline
        self.s = CubicHermiteSpline(self.k, self.v, t)
        self.slack = 0.0
        for i in np.nonzero(self.amb)[0]:
            self.slack += abs(m[i + 2] - m[i + 1]) * (self.k[-1] - self.k[0])


def cubic(k, v):
    k, v = np.array(k, float), np.array(v, float)
    P = np.polynomial.polynomial.Polynomial
    d0 = P.fit(k[:3], v[:3], 2).deriv()(k[0])
    dn = P.fit(k[-3:], v[-3:], 2).deriv()(k[-1])
    return CubicSpline(k, v, bc_type=((1, d0), (1, dn)))


def linseg_int(k, v, x):
    # exact integral of the clamped piecewise linear function over [0, x]
    pts = sorted({0.0, x, *[q for q in k if 0 < q < x]})
    f = lambda s: np.interp(s, k, v)
    return sum(0.5 * (b - a) * (f(a) + f(b)) for a, b in zip(pts, pts[1:]))


def reference(t, c, k, v, x, cur):
    """-> (value, absolute tolerance, alternative exact value or None) or None if unspecified."""
    sc = max([1e-300] + [abs(q) for q in (v if len(k) else c)])
    if t.startswith("akima") or t.startswith("cubic"):
        inside = k[0] <= x <= k[-1]
        if t.startswith("akima"):
            A = Akima(k, v)
            f, slack = A.s, A.slack
        else:
            f, slack = cubic(k, v), 0.0
        if t.endswith("_ip"):
            if not inside or k[0] != 0:
                return None
            return float(f.integrate(0, x)), 1e-10 * sc + slack, None
        if not inside:
            return None
        return float(f(x)), 1e-10 * sc + slack, None
    if t.startswith("line_segment"):
        if t.endswith("_ip"):
            return linseg_int(k, v, x), 1e-12 * sc, None
        return float(np.interp(x, k, v)), 1e-12 * sc, None
    r = raw(t, c, x, cur)
    if isinstance(r, tuple):
        f = r[1]
        gl = x * sum(w * f(x * g) for g, w in zip(GX, GW))
        ex = quad(f, 0, x, epsabs=1e-12, epsrel=1e-11, limit=200)[0] if x > 0 else 0.0
        return gl, 1e-11 * max(sc, abs(gl)), ex
    return r, 1e-11 * max(sc, abs(r)), None


def init():
    return vlib.load_ext("x_profiles")


XS = [0.0, 1e-12, 0.05, 0.1, 0.2, 0.25, 0.3, 0.4, 0.5, 0.55, 0.7, 0.75, 0.8, 0.9, 0.97, 1 - 1e-9, 1.0]


def do_values(X, case):
    kind, t, combos, mods = case
    bad, n = [], 0
    fld = {"p": ("pmass_type", "am"), "i": ("piota_type", "ai"), "c": ("pcurr_type", "ac")}[kind]
    for c, k, v in combos:
        xs = sorted(set(XS) | {float(q) for q in k if 0 <= q <= 1} | {float((a + b) / 2) for a, b in zip(k, k[1:]) if 0 <= a + b <= 2})
        for bloat, scale in mods:
            d = {fld[0]: t, fld[1]: np.array(c, float), fld[1] + "_aux_s": np.array(k, float), fld[1] + "_aux_f": np.array(v, float),
                 "bloat": bloat, "pres_scale": scale}
            got = X.eval(d, xs)["pic".index(kind)]
            for x, g in zip(xs, got):
                e = x if kind == "i" else min(abs(x * bloat), 1.0)
                ref = reference(t, c, k, v, e, kind == "c")
                n += 1
                if ref is None:
                    continue
                r, tol, alt = ref
                f = MU0 * scale if kind == "p" else 1.0
                ok = abs(g - r * f) <= tol * abs(f) + 1e-300 or g == r * f
                if not ok and alt is not None:
                    ok = abs(g - alt * f) <= (abs(alt - r) + 1e-9 * max(1, abs(alt))) * abs(f)
                if not ok and len(bad) < 5:
                    bad.append((f"{kind}:{t}:x={x!r}:c={list(c)}:k={list(k)}:v={list(v)}:bloat={bloat}:scale={scale}", f"got {g!r}, formula gives {r * f!r}"))
    return n, bad


def coef_sets(t):
    V = [0.0, 1.0, -2.0, 0.5]
    if t in ("power_series", "power_series_i"):
        return [c for n in range(0, 5) for c in it.product(V, repeat=n)] + [tuple(range(1, 22)), (0,) * 20 + (1,)]
    if t == "nice_quadratic":
        return [c for n in range(0, 4) for c in it.product(V, repeat=n)]
    if t == "gauss_trunc":
        return [(a, b) for a in (1.0, -2.0, 3e5) for b in (0.1, 0.5, 1.0, 2.0)]
    if t == "sum_atan":
        g = [(a, b, p, q) for a in (1.0, -0.5) for b in (0.5, 2.0) for p in (1.0, 2.5) for q in (1.0, 0.5)]
        return ([(c0,) for c0 in (0.0, 1.5)] + [(c0,) + h for c0 in (0.0, 1.5) for h in g]
                + [(0.3,) + h1 + h2 for h1 in g[::3] for h2 in g[::2]]
                + [(0.3,) + sum((g[(i * 5 + j) % 16] for i in range(n)), ()) for n in (3, 4, 5) for j in range(16)])
    if t == "two_lorentz":
        return [(a, b, w1, p1, q1, w2, p2, q2) for a in (1.0, -3.0) for b in (0.0, 0.3, 1.0) for w1 in (0.5, 1.2) for p1 in (1.0, 2.0)
                for q1 in (1.0, 1.5) for w2 in (0.7, 1.0) for p2 in (1.5, 3.0) for q2 in (1.0, 2.0)]
    if t in ("two_power", "two_power_gs"):
        b = [(a, p, q) for a in (1.0, -2.0, 1e5) for p in (1.0, 2.0, 5.5) for q in (1.0, 2.0, 1.5, 0.0)]
        if t == "two_power":
            return b
        g = [(a, m, w) for a in (0.5, -0.3, 0.0) for m in (0.0, 0.4, 1.0) for w in (0.1, 0.5)]
        return b + [x + h for x in b[:6] for h in g] + [b[1] + h1 + h2 for h1 in g for h2 in g] + [
            b[4] + sum((g[(i * 7 + j) % 18] for i in range(n)), ()) for n in (3, 4, 5, 6) for j in range(18)]
    if t == "pedestal":
        out = []
        base = [0.0] * 21
        for i in range(21):       # every coefficient on its own, with a valid pedestal width and without
            for w in (0.0, 0.2):
                for pos in (0.3, 0.9):
                    for val in (1.0, -2.0):
                        c = list(base)
                        c[11], c[10], c[19], c[18] = w, pos, w, pos
                        if i not in (10, 11, 18, 19):
                            c[i] = val
                        c[8] = c[8] or 0.7
                        c[17] = c[17] or 0.4
                        c[13] = c[13] or 0.3
                        c[16], c[15] = max(c[16], 0.0), c[15] or 0.5
                        out.append(tuple(c))
        out += [tuple(np.arange(1, n + 1) / 10) for n in range(0, 22)]
        return out
    if t == "rational":
        return ([(a, b) + (0,) * 8 + (d, e) for a in V for b in V for d in (1.0, 2.0) for e in (0.0, 0.5, -0.5)]
                + [tuple(1.0 if j == i or j == 10 else 0.0 for j in range(21)) for i in range(21)] + [(1.0,) + (0.0,) * 10, (1.0,)])
    raise KeyError(t)


def knot_sets(t, thorough):
    P = [0.0, 0.1, 0.25, 0.5, 0.75, 1.0]
    mn = 2 if t.startswith("line") else 4
    mx = 6 if thorough else 5
    out = []
    for n in range(mn, mx + 1):
        for k in it.combinations(P, n):
            if k[0] == 0 or k[0] == 0.1:
                vs = it.product((0.0, 1.0, -2.0), repeat=n) if n <= 4 or thorough else it.product((1.0, -2.0), repeat=n)
                out += [((), k, v) for v in vs]
    if t.startswith("line"):
        for k in [(-0.05, 0.0, 0.05, 0.5, 1.0), (-0.5, 0.25, 0.75), (-1.0, -0.5), (0.2, 0.6)]:
            out += [((), k, v) for v in it.product((0.0, 1.0, -2.0), repeat=len(k))]
    P3 = [(0.0, 1 / 3, 0.5, 0.75, 1.0), tuple(np.linspace(0, 1, 11)), tuple(np.linspace(0, 1, 51) ** 2)]
    for k in P3:
        for f in (lambda s: 1 - s, lambda s: s * s, lambda s: s ** 3 - s, lambda s: math.exp(-4 * s), lambda s: math.sin(9 * s)):
            out.append(((), k, tuple(f(s) for s in k)))
    return out


# ------------------------------------------------------------------ profiles on the radial grids
def do_grid(X, case):
    d, ns, nt, sgn, flip, r00 = case
    bad = []
    aphi = d.get("aphi", np.array([1.0]))
    tf = lambda x: sum(a * x ** (i + 1) for i, a in enumerate(aphi))
    tfd = lambda x: sum((i + 1) * a * x ** i for i, a in enumerate(aphi))
    pe = sgn * d.get("phiedge", 1.0) / (2 * math.pi) / tf(1.0)
    bl = d.get("bloat", 1.0)
    ps = lambda c, x: sum(ci * x ** i for i, ci in enumerate(c))
    psI = lambda c, x: sum(ci / (i + 1) * x ** (i + 1) for i, ci in enumerate(c))
    edge = psI(d["ac"], min(bl, 1.0))
    itor = sgn * MU0 * d.get("curtor", 0.0) / (2 * math.pi * edge) if edge != 0 else 0.0
    rms = 0.0
    cover = set()
    def cmp(name, j, g, r):
        if not abs(g - r) <= 1e-11 * max(abs(g), abs(r)) + 1e-18:
            bad.append((f"grid:{name}:ns={ns}:threads={nt}:j={j}:sgn={sgn}:flip={flip}:{ {k: (list(v) if hasattr(v, 'tolist') else v) for k, v in d.items()} }", f"got {g!r}, expected {r!r}"))
    for th in range(nt):
        g = X.grid(d, nt, th, ns, sgn, flip, r00)
        rms += g["rmsPhiP"]
        for jH in range(g["nsMinH"], g["nsMaxH"]):
            s, q = (jH + 0.5) / (ns - 1), jH - g["nsMinH"]
            cover.add(jH)
            t = min(tf(s), 1.0)
            io = ps(d["ai"], t)
            cmp("phipH", jH, g["phipH"][q], pe * tfd(s))
            cmp("iotaH", jH, g["iotaH"][q], io * (-1 if flip else 1))
            cmp("chipH", jH, g["chipH"][q], pe * tfd(s) * io * (-1 if flip else 1))
            cmp("currH", jH, g["currH"][q], itor * psI(d["ac"], min(abs(t * bl), 1.0)))
            m = min(tf(min(s, d.get("spres_ped", 1.0))), 1.0)
            cmp("massH", jH, g["massH"][q], MU0 * d.get("pres_scale", 1.0) * ps(d["am"], min(abs(m * bl), 1.0)) * (abs(pe * tfd(s)) * r00) ** d.get("gamma", 0.0))
            cmp("sqrtSH", jH, g["sqrtSH"][q], math.sqrt(s))
            cmp("sm", jH, g["sm"][q], math.sqrt(s / ((jH + 1) / (ns - 1))))
            cmp("sp", jH, g["sp"][q], math.sqrt(s / (max(jH, 1) / (ns - 1))) if jH else g["sm"][q])
        for jF in range(g["nsMinF1"], g["nsMaxF1"]):
            s, q = jF / (ns - 1), jF - g["nsMinF1"]
            t = min(tf(s), 1.0)
            cmp("phipF", jF, g["phipF"][q], pe * tfd(s))
            cmp("|iotaF|", jF, abs(g["iotaF"][q]), abs(ps(d["ai"], t)))
            cmp("|chipF|", jF, abs(g["chipF"][q]), abs(pe * tfd(s) * ps(d["ai"], t)))
            cmp("sqrtSF", jF, g["sqrtSF"][q], math.sqrt(s))
    if cover != set(range(ns - 1)):
        bad.append((f"grid:cover:ns={ns}:threads={nt}", f"half-grid points covered: {sorted(cover)}"))
    cmp("rmsPhiP", -1, rms, sum((pe * tfd((j + 0.5) / (ns - 1))) ** 2 for j in range(ns - 1)))
    return 1, bad[:5]


def dispatch(X, case):
    if case[0] == "grid":
        return do_grid(X, case[1:])
    return do_values(X, case)


def run():
    c = vlib.Check("N04", "exploration",
                   "all parameterisations x profile kinds; closed forms over enumerated coefficient sets; splines and line segments over all knot subsets of a 6-point lattice x all value patterns; 17+ radii each incl. knots, midpoints, axis, edge; bloat/scale variants; profiles on the radial grids for ns 3..N x thread splits x signs",
                   ["splines are specified between their first and last knot", "too few coefficients are outside the formula's domain"])
    vlib.build(["x_profiles"])
    X = init()
    names = list(ALLOWED) + ["---invalid---", "", "POWER_SERIES", "power_series ", "power", "akima", "Line_segment"]
    for n in names:
        exp = tuple(map(bool, ALLOWED.get(n, (0, 0, 0))))
        got = tuple(X.accepted(n))
        c.seen(("accept", exp))
        if n == n.strip() and n.lower() == n:
            c.expect(got == exp, f"accept:{n}", f"accepted for (pressure, iota, current) {got}, documented {exp}")
        else:
            c.expect(got in (exp, tuple(map(bool, ALLOWED.get(n.strip().lower(), (0, 0, 0))))), f"accept:{n!r}", f"{got}")
    cases = []
    for t, al in ALLOWED.items():
        if t in UNIMPL:
            continue
        for kind, ok in zip("pic", al):
            if not ok:
                continue
            spl = any(t.startswith(q) for q in ("akima", "cubic", "line"))
            combos = knot_sets(t, c.thorough) if spl else [(cf, (), ()) for cf in coef_sets(t)]
            mods = [(1.0, 1.0)]
            for i in range(0, len(combos), 40):
                cases.append((kind, t, combos[i:i + 40], mods))
            if kind != "i":
                cases.append((kind, t, combos[::max(1, len(combos) // 12)], [(0.5, 2.0), (1.3, 0.25), (-0.7, 1.0)]))
            else:
                cases.append((kind, t, combos[::max(1, len(combos) // 12)], [(0.5, 2.0)]))
    base = dict(am=np.array([3.0, -2.0, -0.5]), ai=np.array([0.4, 0.7, -0.2]), ac=np.array([1.0, 0.5, -0.3]))
    var = [dict(phiedge=f, curtor=cu, gamma=g, spres_ped=sp, bloat=b, aphi=np.array(a))
           for f in (1.0, -0.07) for cu in (0.0, 2e4) for g in (0.0, 5 / 3) for sp in (1.0, 0.6) for b in (1.0, 0.8)
           for a in ([1.0], [1.0, 0.5], [0.4, 0.6], [0.2, 0.3, 0.5])]
    for d in var:
        for ns in (3, 4, 7) if not c.thorough else (3, 4, 5, 7, 12, 16):
            for nt in sorted({1, 2, ns - 1}):
                if nt > ns // 2 and nt > 1:
                    continue
                for sgn, flip in ((-1, False), (1, True)):
                    cases.append(("grid", {**base, **d}, ns, nt, sgn, flip, 1.7))
    for ns in range(3, 30):
        for nt in range(1, max(2, ns // 2 + 1)):
            cases.append(("grid", {**base, **var[5]}, ns, nt, -1, False, 1.7))
    n = 0
    for case, r in zip(cases, vlib.pmap(cases, dispatch, init, timeout=120)):
        lab = case[0] if case[0] == "grid" else f"{case[0]}:{case[1]}"
        if r.kind != "ok":
            c.fail(f"{lab}:{r.kind}", f"{r} case={str(case)[:500]}", case)
            continue
        k, bad = r.value
        n += k
        c.outcomes[lab] = c.outcomes.get(lab, 0) + k
        c.evaluations += k
        for key, det in bad:
            c.fail(key, det, {"case": key})
    # set_profile: the values used on every grid are those of the callable
    vp = None
    vlib.build(["_vmecpp"])
    vp = vlib.load_vmecpp()
    inp = vp.VmecInput.default() if hasattr(vp.VmecInput, "default") else vp.VmecInput.from_file(vlib.REPO / "examples/data/solovev.json")
    f = lambda s: np.where(s < 0.4, 1 - s, 0.2 + s ** 2) * 7.5
    for nsarr in it.chain(([a] for a in (3, 5, 11, 51)), it.combinations((3, 4, 5, 9, 16, 25, 51), 2), it.combinations((5, 9, 16, 25, 51), 3)):
        inp2 = inp.model_copy(update={"ns_array": np.array(list(nsarr), dtype=np.int64)})
        before = inp2.model_dump_json()
        for fld, pre, kind in (("pressure", "am", "p"), ("iota", "ai", "i"), ("current", "ac", "c")):
            q = vp.set_profile(inp2, fld, f)
            c.expect(inp2.model_dump_json() == before, f"set_profile:mutates:{fld}", "input modified")
            ty = {"p": q.pmass_type, "i": q.piota_type, "c": q.pcurr_type}[kind]
            d = {{"p": "pmass_type", "i": "piota_type", "c": "pcurr_type"}[kind]: ty, pre: np.asarray(getattr(q, pre)), pre + "_aux_s": np.asarray(getattr(q, pre + "_aux_s")), pre + "_aux_f": np.asarray(getattr(q, pre + "_aux_f"))}
            for ns in nsarr:
                xs = [j / (ns - 1) for j in range(ns)] + [(j + 0.5) / (ns - 1) for j in range(ns - 1)]
                g = np.array(X.eval(d, xs)["pic".index(kind)]) / (MU0 if kind == "p" else 1.0)
                c.seen(("set_profile", fld))
                c.expect(np.allclose(g, f(np.array(xs)), rtol=1e-9, atol=0), f"set_profile:{fld}:{list(nsarr)}:ns={ns}", f"max diff {np.max(np.abs(g - f(np.array(xs))))}")
    c.cov.update(states=c.evaluations, transitions=c.evaluations)
    return c


vlib.main(run)
