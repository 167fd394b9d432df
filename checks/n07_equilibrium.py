"""N07: a converged result is an ideal-MHD equilibrium. On every enumerated converged run: (a) the energy, evaluated independently
from the reported state, is stationary against every single perturbation (surface x harmonic x R/Z/lambda); (b) free boundary: at
every probed point inside the plasma the field of the external coils equals the field the boundary's magnetic field demands (virtual
casing), i.e. no sources but the coils; (c) the runs with published reference results reproduce them."""
import json
import os
import numpy as np
import equil as E
import vlib
import vmecref as V

TH = os.environ.get("VERIF_TIER") == "thorough"


def mx(x):
    return float(np.max(np.abs(x), initial=0.0))


class Ctx:
    def __init__(self):
        self.v = vlib.load_vmecpp()
        E.quiet()
        self.e = {k: (i, None) for k, i in E.fixed(self.v).items()} | E.free(self.v)
        self.coils = {"sol": E.parse_coils(E.TD + "coils.solovev"), "cth": E.parse_coils(E.TD + "coils.cth_like")}

    def inp(self, name, mods):
        i, t = self.e[name]
        kw = dict(mods)
        ns, ftol, niter = kw.pop("ns", 9), kw.pop("ftol", 1e-14 if t is None else 1e-11), kw.pop("niter", 20000)
        if kw.pop("aslasym", False):
            z = np.zeros_like(i.rbc)
            kw |= dict(lasym=True, rbs=z, zbc=z.copy(), raxis_s=0 * i.raxis_c, zaxis_c=0 * i.raxis_c)
        if kw.pop("flip", False):
            kw["zbs"] = -i.zbs
            if i.lasym:
                kw["rbs"] = -i.rbs
        ext = kw.pop("ext", None)
        if ext is not None:
            x = np.array(i.extcur, float)
            x[ext[0] % len(x)] *= ext[1]
            kw["extcur"] = x
        return E.one(E.derive(i, **kw), ns, ftol, niter), t


class Local:
    """energy change of perturbing one harmonic on one surface: only the two adjacent half surfaces matter"""

    def __init__(self, i, w):
        self.w = w
        self.st = V.state(i, w)
        self.p = np.asarray(w.pres)[1:] * V.MU0
        self.chip = np.asarray(w.iotas)[1:] * np.asarray(w.phips)[1:]

    def energy(self, c):
        st = self.st
        st.set(c)
        st.field(self.chip)
        return st.energy_b() - st.energy_p(self.p)


def stationarity(c, case):
    """largest Newton displacement (gradient / curvature of the energy) over all harmonics and surfaces"""
    _, name, mods = case
    i, t = c.inp(name, mods)
    try:
        w = c.v.run(i, magnetic_field=t, max_threads=1, verbose=False).wout
    except RuntimeError as e:
        return ("error", str(e)[:200])
    L = Local(i, w)
    c0 = {k: x.copy() for k, x in L.st.c.items()}
    xm, xn = L.st.xm, L.st.xn
    E0 = L.energy(c0)
    keys = ["rmnc", "zmns", "lmns_full"] + (["rmns", "zmnc", "lmnc_full"] if w.lasym else [])
    out, n = [], 0
    for key in keys:
        lam = key[0] == "l"
        sc = 1.0 if lam else float(w.Aminor_p)
        h = 1e-4 * sc if not lam else 1e-4
        for j in range(1, w.ns - 1):
            for m in range(len(xm)):
                if xm[m] == 0 and xn[m] == 0 and key not in ("rmnc", "zmnc"):
                    continue
                if not lam and (xm[m] >= mods.get("mpol_geometry", 99) or abs(xn[m]) > mods.get("ntor_geometry", 99) * w.nfp):
                    continue                                     # not free to change
                if key == "zmnc" and xm[m] == 0 and xn[m] == 0 and name not in ("cthfa", "solfa"):
                    pass
                d = {q: (x.copy() if q == key else x) for q, x in c0.items()}
                d[key][j, m] += h
                a = L.energy(d)
                d[key][j, m] -= 2 * h
                b = L.energy(d)
                n += 2
                H = (a + b - 2 * E0) / h ** 2
                g = (a - b) / (2 * h)
                if not H > 0:
                    continue
                out.append((abs(g / H) / sc, "lambda" if lam else ("geometry1" if j == 1 else "geometry"), key, j, int(xm[m]), int(xn[m])))
    worst = {}
    for o in out:
        if o[0] > worst.get(o[1], (-1,))[0]:
            worst[o[1]] = o
    return ("ok", worst, n)


# allowed Newton displacement (in minor radii, radians for lambda): discretisation error of the second-order radial scheme
LIMIT = {"geometry": 5e-4, "geometry1": 1.5e-3, "lambda": 4e-3}


def coil_field(coils, x, extcur):
    b = np.zeros(3)
    for circ, s in zip(coils, extcur):
        for f, I in circ:
            if isinstance(f, tuple):
                R = np.hypot(x[0], x[1])
                br, bz = E.loop_field(f[1], f[2], I, R, x[2])
                b += s * np.array([br * x[0] / R, br * x[1] / R, bz])
            else:
                b += s * E.segment_field(f, I, x[None])[0]
    return b


def casing(w, st, x):
    g, f = st.g, st.f
    ex = lambda a: 1.5 * a[-1] - 0.5 * a[-2]
    D = lambda k: f[k + "e"][-1] + f[k + "o"][-1]
    bu, bv, R, Z = ex(st.bsupu), ex(st.bsupv), D("r"), D("z")
    tot = np.zeros(3)
    for k in range(w.nfp):
        ph = g.Z + 2 * np.pi / w.nfp * k
        c, s = np.cos(ph), np.sin(ph)
        X = np.stack([R * c, R * s, Z], 1)
        eu = np.stack([D("ru") * c, D("ru") * s, D("zu")], 1)
        ev = np.stack([D("rv") * c - R * s, D("rv") * s + R * c, D("zv")], 1)
        B = bu[:, None] * eu + bv[:, None] * ev
        N = np.cross(eu, ev)
        if ((X - np.stack([np.mean(R) * c, np.mean(R) * s, np.mean(Z) + 0 * Z], 1)) * N).sum() < 0:
            N = -N
        d = x - X
        r3 = ((d ** 2).sum(1) ** 1.5)[:, None]
        tot -= (np.cross(np.cross(N, B), d) / r3 + (N * B).sum(1)[:, None] * d / r3).mean(0) * (2 * np.pi / w.nfp) / 2
    return tot


def vacuum(c, case):
    _, name, mods = case
    i, t = c.inp(name, mods)
    try:
        w = c.v.run(i, magnetic_field=t, max_threads=1, verbose=False).wout
    except RuntimeError as e:
        return ("error", str(e)[:200])
    nt, nz = V.grid_sizes(i)
    st = V.state(i, w, grid=(4 * nt, 4 * nz if w.ntor else 256)).field(np.asarray(w.iotas)[1:] * np.asarray(w.phips)[1:])
    coils = E.shift(c.coils[name[:3]], {"solfa": 0.1, "cthfa": 0.01}.get(name, 0.0))
    worst, n = (-1.0, None), 0
    xm, xn = np.asarray(w.xm), np.asarray(w.xn)
    for q in range(4):
        zeta = 2 * np.pi / w.nfp * q / 4 + 0.05
        for j in (0, (w.ns - 1) // 4):
            for th in (0.3, 1.9, 3.5, 5.0) if j else (0.0,):
                a = xm * th - xn * zeta
                R, Z = (w.rmnc[:, j] * np.cos(a)).sum(), (w.zmns[:, j] * np.sin(a)).sum()
                if w.lasym:
                    R, Z = R + (w.rmns[:, j] * np.sin(a)).sum(), Z + (w.zmnc[:, j] * np.cos(a)).sum()
                x = np.array([R * np.cos(zeta), R * np.sin(zeta), Z])
                bc, bp = coil_field(coils, x, i.extcur), casing(w, st, x)
                n += 1
                d = mx(bc - bp) / mx(bc)
                if not d <= worst[0]:
                    worst = (float(d), f"at (R, zeta, Z) = ({R:.4f}, {zeta:.4f}, {Z:.4f}) the coils give {bc}, the boundary requires {bp}")
    return ("ok", worst, n)


REF = [("solovev", "solovev"), ("solovev_analytical", "solovev_analytical"), ("solovev_no_axis", "solovev_no_axis"),
       ("circular_tokamak", "circular_tokamak_reference"), ("cma", "cma"), ("cth_like_fixed_bdy", "cth_like_fixed_bdy"),
       ("cth_like_fixed_bdy_nzeta_37", "cth_like_fixed_bdy_nzeta_37"), ("li383_low_res", "li383_low_res_reference"),
       ("solovev_free_bdy", "solovev_free_bdy"), ("cth_like_free_bdy", "cth_like_free_bdy")]
FIELDS = ("rmnc", "zmns", "lmns", "bmnc", "gmnc", "bsupumnc", "bsupvmnc", "bsubumnc", "bsubvmnc", "iotaf", "iotas", "presf", "pres", "vp", "wb", "wp", "aspect", "volume_p", "betatotal", "betapol",
          "ctor", "Rmajor_p", "Aminor_p", "b0", "bvco", "buco", "zmax_surf", "rmax_surf", "rmin_surf", "phi", "chi", "phipf", "rbtor", "rbtor0",
          "volavgB", "raxis_cc", "zaxis_cs", "over_r", "specw", "bdotb", "jdotb", "DMerc", "jcuru", "jcurv")


def reference(c, case):
    import netCDF4
    _, inp, ref = case
    v = c.v
    i = v.VmecInput.from_file(E.TD + inp + ".json")
    t, tol = None, 1e-6
    if i.lfreeb:
        kind = "solovev" if "solovev" in inp else "cth_like"
        p = json.load(open(E.TD + f"makegrid_parameters_{kind}.json"))
        t = E.table(v, c.coils[kind[:3]], p["number_of_field_periods"], p["r_grid_minimum"], p["r_grid_maximum"], p["number_of_r_grid_points"],
                    p["z_grid_minimum"], p["z_grid_maximum"], p["number_of_z_grid_points"], p["number_of_phi_grid_points"])
        tol = 2e-3 if kind == "solovev" else 1e-4
    w = v.run(i, magnetic_field=t, max_threads=1, verbose=False).wout
    n = netCDF4.Dataset(E.TD + "wout_" + ref + ".nc")
    bad, num, worst = [], 0, (0.0, "")
    bv = mx(np.asarray(n["bvco"][()]))
    for k in FIELDS:
        if k not in n.variables:
            continue
        a, b = np.asarray(n[k][()], float), np.asarray(getattr(w, {"volume_p": "volume"}.get(k, k)), float)
        if k.endswith(("mnc", "mns")):
            b = b.T
        if a.shape != b.shape:
            bad.append((k, f"shape {b.shape}, reference {a.shape}"))
            continue
        sc = mx(a)
        if k in ("buco", "bsubumnc"):
            sc = max(sc, bv)
        if k in ("ctor", "jcuru", "jcurv"):
            sc = max(sc, 2 * np.pi * bv / V.MU0)
        if k == "jdotb":
            sc = max(sc, bv * mx(np.asarray(n["bmnc"][()])) / V.MU0 / 10)
        num += a.size
        d = mx(a - b) / sc if sc else mx(b)
        worst = max(worst, (d, k))
        if not d <= tol:
            bad.append((k, f"differs from the reference by {d:.3g} of its size"))
    return ("ok", bad, num, worst)


def run(c, case):
    return {"stat": stationarity, "vac": vacuum, "ref": reference}[case[0]](c, case)


def cases():
    out = [("ref", a, b) for a, b in REF[::-1]]
    fx = ["sol", "solan", "circ", "udas", "cth", "li", "ell", "ela"]
    for n in fx:
        for ns in (9, 17) if TH else (9,):
            out.append(("stat", n, {"ns": ns}))
        out.append(("stat", n, {"ns": 9, "flip": True}))
    for n in ("sol", "ell", "cth"):
        out.append(("stat", n, {"aslasym": True}))
    for n in ("ell", "ela"):
        for kw in ({"nfp": 1}, {"nfp": 5}, {"gamma": 5.0 / 3, "am": E.A(0.02, -0.02)}, {"am": E.A(8000.0, -8000.0)}, {"am": E.A(0.0)}, {"ncurr": 1, "curtor": -2e4, "ac": E.A(1.0, -1.0)},
                   {"ncurr": 1, "curtor": 0.0, "ac": E.A(1.0)}, {"phiedge": -0.1}, {"nzeta": 9}, {"nzeta": 12}, {"ntheta": 20}, {"aphi": E.A(0.7, 0.3)}, {"lforbal": True}, {"mpol_geometry": 3},
                   {"ntor_geometry": 1}, {"mpol_geometry": 3, "ntor_geometry": 1}):
            out.append(("stat", n, kw))
    for n in ("solf", "cthf", "solfa", "cthfa"):
        ft = 1e-10 if n[-1] == "a" else 1e-11
        for ns in (9, 17):
            out.append(("vac", n, {"ns": ns, "ftol": ft}))
        out.append(("stat", n, {"ns": 9, "ftol": ft}))
        for e in [(0, 1.02), (1, 0.95), (2, 1.05), (3, 1.1), (0, 0.98)]:
            out.append(("vac", n, {"ns": 9, "ext": e, "ftol": ft}))
        for kw in ({"pres_scale": 2.0}, {"pres_scale": 0.5}, {"nvacskip": 1}, {"nvacskip": 3}):
            out.append(("vac", n, {"ns": 9, "ftol": ft} | kw))
        if n.startswith("cth"):
            for kw in ({"curtor": 3e4}, {"curtor": 5e4}, {"phiedge": -0.03}):
                out.append(("vac", n, {"ns": 9, "ftol": ft} | kw))
    return out


VLIM = {("sol", 9): 2e-3, ("sol", 17): 6e-4, ("cth", 9): 1e-2, ("cth", 17): 5e-3}


def check():
    chk = vlib.Check("N07", "exploration", "converged runs x every (surface, harmonic, variable) perturbation of the energy; free-boundary runs x probe points; published references",
                     ["limits allow the discretisation error of the radial scheme, which shrinks with ns"])
    vlib.build(["_vmecpp"])
    cs = cases()
    out = vlib.pmap(cs, run, init=Ctx, timeout=200)
    tot = {"stat": 0, "vac": 0, "ref": 0}
    worst = {}
    ok = 0
    for c, r in zip(cs, out):
        tag = ":".join(map(str, c[:2])) + ":" + (",".join(f"{k}={x.tolist() if hasattr(x, 'tolist') else x}" for k, x in c[2].items()) if isinstance(c[2], dict) else c[2])
        if r.kind != "ok":
            chk.fail(f"{r.kind}:{tag}", f"{tag} -> {r}", {"case": repr(c)})
            continue
        if r.value[0] == "error":
            chk.seen(("error", c[:2]))
            chk.cov.setdefault("runs_with_error", []).append(tag + " " + r.value[1][:80])
            continue
        ok += 1
        tot[c[0]] += r.value[2]
        chk.seen((c[0], c[1], tuple(sorted(c[2])) if isinstance(c[2], dict) else ""))
        if c[0] == "stat":
            for k, (d, _, key, j, m, n) in r.value[1].items():
                worst[k] = max(worst.get(k, 0), d)
                if not d <= LIMIT[k]:
                    chk.fail(f"{tag}:{key}", f"{tag}: the energy is not stationary: harmonic {key}(m={m}, n={n}) of surface {j} is displaced by {d:.3g} (limit {LIMIT[k]})", {"case": repr(c)})
        elif c[0] == "vac":
            d, msg = r.value[1]
            lim = VLIM[(c[1][:3], c[2]["ns"])]
            worst["vacuum " + c[1][:3] + str(c[2]["ns"])] = max(worst.get("vacuum " + c[1][:3] + str(c[2]["ns"]), 0), d)
            if not d <= lim:
                chk.fail(f"{tag}:vacuum", f"{tag}: {msg} (relative difference {d:.3g}, limit {lim})", {"case": repr(c)})
        else:
            for k, m in r.value[1]:
                chk.fail(f"{tag}:{k}", f"{tag}: {k} {m}", {"case": repr(c)})
            worst["reference"] = max(worst.get("reference", 0), r.value[3][0])
    chk.cov |= {"configurations": len(cs), "runs_with_result": ok, "energy_evaluations": tot["stat"], "field_points": tot["vac"], "reference_values": tot["ref"], "worst": {k: float(f"{x:.3g}") for k, x in worst.items()}}
    if ok < 0.8 * len(cs):
        chk.fail("too-few-results", f"only {ok} of {len(cs)} configurations gave a result: {chk.cov.get('runs_with_error')}")
    return chk


vlib.main(check)
