"""Independent evaluation of VMEC's discrete representation from a wout (geometry, stream function,
flux and transform profiles): Jacobian, metric, field components, energies, currents.

Written from the published definitions of the wout quantities (Hirshman & Whitson 1983, VMEC wiki); it
shares no code with /repo. Angles: full grid theta in [0,2pi), zeta in [0,2pi/nfp)."""
import numpy as np

LAX = 1.0
MU0 = 4e-7 * np.pi


class Grid:
    def __init__(self, nfp, ntheta, nzeta):
        self.nfp, self.nt, self.nz = nfp, ntheta, nzeta
        t = 2 * np.pi * np.arange(ntheta) / ntheta
        z = 2 * np.pi / nfp * np.arange(nzeta) / nzeta
        self.Z, self.T = [a.ravel() for a in np.meshgrid(z, t, indexing="ij")]   # [zeta][theta]

    def cs(self, xm, xn):
        a = np.outer(xm, self.T) - np.outer(xn, self.Z)
        return np.cos(a), np.sin(a)


def grid_sizes(i):
    """real-space grid the solver uses for an input (documented rule)"""
    nt = max(i.ntheta, 2 * i.mpol + 6)
    nt = 2 * (nt // 2)
    nz = i.nzeta
    if i.ntor == 0:
        nz = max(nz, 1)
    else:
        nz = max(nz, 2 * i.ntor + 4)
    return nt, nz


def coeffs(w):
    """dict of the geometry coefficients on the full grid [ns, mn]"""
    g = lambda k: np.asarray(getattr(w, k), dtype=float).T if getattr(w, k, None) is not None and np.size(getattr(w, k)) else None
    c = {k: g(k) for k in ("rmnc", "zmns", "lmns_full", "rmns", "zmnc", "lmnc_full")}
    z = np.zeros_like(c["rmnc"])
    for k in c:
        if c[k] is None or not w.lasym and k in ("rmns", "zmnc", "lmnc_full"):
            c[k] = z.copy()
    return c


class State:
    """Discrete equilibrium state; everything follows from coefficients, flux profiles and pressure."""

    def __init__(self, ns, nfp, xm, xn, c, phipF, phipH, grid, lasym, lam_axis=None):
        self.ns, self.nfp, self.g = ns, nfp, grid
        self.xm, self.xn = np.asarray(xm, dtype=float), np.asarray(xn, dtype=float)
        self.s = np.linspace(0, 1, ns)
        self.sh = 0.5 * (self.s[1:] + self.s[:-1])
        self.ds = 1.0 / (ns - 1)
        self.phipF, self.phipH = phipF, phipH     # internal normalisation: signgs/(2 pi) dPhi/ds
        self.lasym = lasym
        C, S = grid.cs(self.xm, self.xn)
        self.C, self.S = C, S
        self.set(c)

    def _split(self, a):
        """even part and odd part / sqrt(s), with the regular extrapolation of m=1 to the axis"""
        ev = (self.xm % 2 == 0)
        e = np.where(ev, a, 0.0)
        o = np.where(ev, 0.0, a)
        o = o.copy()
        o[1:] /= np.sqrt(self.s[1:])[:, None]
        e = e.copy()
        e[0, self.xm > 0] = 0.0
        o[0] = np.where(self.xm == 1, o[1], 0.0)
        return e, o

    def set(self, c):
        C, S, m, n = self.C, self.S, self.xm, self.xn
        self.c = c
        f = {}
        for part, i in (("e", 0), ("o", 1)):
            rc, rs = self._split(c["rmnc"])[i], self._split(c["rmns"])[i]
            zs, zc = self._split(c["zmns"])[i], self._split(c["zmnc"])[i]
            ls, lc = self._split(c["lmns_full"] * self.phipF[:, None])[i], self._split(c["lmnc_full"] * self.phipF[:, None])[i]
            if part == "e":   # the stream function of the axis is not evolved
                ls[0], lc[0] = np.where(m == 0, LAX * ls[1], 0.0), np.where(m == 0, LAX * lc[1], 0.0)
            f["r" + part] = rc @ C + rs @ S
            f["z" + part] = zs @ S + zc @ C
            f["ru" + part] = -(rc * m) @ S + (rs * m) @ C
            f["zu" + part] = (zs * m) @ C - (zc * m) @ S
            f["rv" + part] = (rc * n) @ S - (rs * n) @ C
            f["zv" + part] = -(zs * n) @ C + (zc * n) @ S
            f["lu" + part] = (ls * m) @ C - (lc * m) @ S
            f["lv" + part] = -(ls * n) @ C + (lc * n) @ S
        f["lue"] = f["lue"] + self.phipF[:, None]
        self.f = f
        sq = np.sqrt(self.sh)[:, None]
        av = lambda x: 0.5 * (x[1:] + x[:-1])
        h = lambda k: av(f[k + "e"]) + sq * av(f[k + "o"])
        self.r12, self.ru12, self.zu12 = h("r"), h("ru"), h("zu")
        self.rv12, self.zv12 = h("rv"), h("zv")
        d = lambda k: ((f[k + "e"][1:] - f[k + "e"][:-1]) + sq * (f[k + "o"][1:] - f[k + "o"][:-1])) / self.ds
        self.rs, self.zs = d("r"), d("z")
        # d(sqrt s)/ds terms of the odd harmonics, products averaged
        b = lambda p, q: av(f[p] * f[q])
        t = 0.25 * 2 * (b("ruo", "zo") - b("zuo", "ro") + (b("rue", "zo") - b("zue", "ro")) / sq)
        self.tau = self.ru12 * self.zs - self.rs * self.zu12 + t
        self.gsqrt = self.tau * self.r12
        sF = self.s[:, None]

        def metric(a, b_):
            ee = f[a + "e"] * f[b_ + "e"] + sF * f[a + "o"] * f[b_ + "o"]
            eo = f[a + "e"] * f[b_ + "o"] + f[a + "o"] * f[b_ + "e"]
            return av(ee) + sq * av(eo)
        self.guu = metric("ru", "ru") + metric("zu", "zu")
        self.guv = metric("ru", "rv") + metric("zu", "zv")
        self.gvv = metric("rv", "rv") + metric("zv", "zv") + metric("r", "r")
        self.lu, self.lv = h("lu"), h("lv")
        self.vp = np.abs(self.gsqrt.mean(1))      # dV/ds / (4 pi^2)

    def field(self, chipH):
        self.chipH = chipH
        self.bsupv = self.lu / self.gsqrt
        self.bsupu = (chipH[:, None] - self.lv) / self.gsqrt
        self.bsubu = self.guu * self.bsupu + self.guv * self.bsupv
        self.bsubv = self.guv * self.bsupu + self.gvv * self.bsupv
        self.b2 = self.bsupu * self.bsubu + self.bsupv * self.bsubv
        self.buco, self.bvco = self.bsubu.mean(1), self.bsubv.mean(1)
        return self

    def chip_for_current(self, curr):
        """chi' such that the enclosed toroidal current (internal units) is curr"""
        b0 = (-self.guu * self.lv / self.gsqrt + self.guv * self.lu / self.gsqrt).mean(1)
        return (curr - b0) / (self.guu / self.gsqrt).mean(1)

    def energy_b(self):
        return np.abs((self.gsqrt * self.b2 / 2).mean(1)).sum() * self.ds

    def energy_p(self, presH):
        return (presH * self.vp).sum() * self.ds


def state(i, w, grid=None):
    nt, nz = grid or grid_sizes(i)
    g = Grid(w.nfp, nt, nz)
    phipF = np.asarray(w.phipf) * w.signgs / (2 * np.pi)
    return State(w.ns, w.nfp, w.xm, w.xn, coeffs(w), phipF, np.asarray(w.phips)[1:], g, w.lasym)


def project(w, grid, f):
    """(cos, sin) coefficients on the Nyquist mode table of a half-grid field f[j, kl]"""
    xm, xn = np.asarray(w.xm_nyq, float), np.asarray(w.xn_nyq, float)
    C, S = grid.cs(xm, xn)
    norm = 2.0 / f.shape[1]
    a, b = norm * f @ C.T, norm * f @ S.T
    n = np.rint(np.abs(xn) / grid.nfp).astype(int)
    f = np.where((xm == 0) & (n == 0), 0.5, 1.0)
    # Nyquist modes: both mirror images are in the table (or the mode is its own image)
    f = f * np.where(2 * xm == grid.nt, 0.5, 1.0) * np.where((2 * n == grid.nz) & (n > 0), 0.5, 1.0)
    a, b = a * f, b * f
    return a, b
