"""N02: every reported quantity of every enumerated run equals its definition, evaluated independently (vmecref)
from the reported flux-surface geometry, stream function and the input's profiles."""
import os
import numpy as np
import equil as E
import vlib
import vmecref as V

TH = os.environ.get("VERIF_TIER") == "thorough"
PI, MU0 = np.pi, V.MU0
TOL = 1e-8
ENDS = {"jcurv", "jcuru", "equif", "tab jsupv", "tab jsupu", "tab dVdphi", "tab dpdphi", "jdotb", "bdotb", "bdotgradv"}


def mx(x):
    return float(np.max(np.abs(x), initial=0.0))


def full(h):
    """half-grid profile -> full grid (linear inside, 1.5/-0.5 at the ends)"""
    f = np.zeros(len(h) + 1)
    f[1:-1] = 0.5 * (h[1:] + h[:-1])
    f[0], f[-1] = 1.5 * h[0] - 0.5 * h[1], 1.5 * h[-1] - 0.5 * h[-2]
    return f


def ends(x):
    """linear extrapolation of an interior full-grid profile to axis and edge"""
    f = np.zeros(len(x) + 2)
    f[1:-1] = x
    f[0], f[-1] = 2 * f[1] - f[2], 2 * f[-2] - f[-3]
    return f


def power(c, s):
    return sum(a * s ** k for k, a in enumerate(c)) + 0 * s


def smooth(w, g, f):
    """keep the resolved harmonics of a field on the grid; also returns its derivatives"""
    xm, xn = [], []
    for m in range(w.mpol):
        for n in range(-w.ntor if m else 0, w.ntor + 1):
            xm.append(m)
            xn.append(n * w.nfp)
    xm, xn = np.array(xm, float), np.array(xn, float)
    C, S = g.cs(xm, xn)
    nn = f.shape[-1]
    z = np.where((xm == 0) & (xn == 0), 1.0, 2.0) / nn
    a, b = (f @ C.T) * z, (f @ S.T) * z
    return a @ C + b @ S, (-(a * xm) @ S + (b * xm) @ C), ((a * xn) @ S - (b * xn) @ C)


def relations(i, o, converged):
    """yield (name, reported, expected, scale)"""
    w = o.wout
    ns, sg, nfp = w.ns, w.signgs, w.nfp
    ds, s = 1.0 / (ns - 1), np.linspace(0, 1, ns)
    sh = 0.5 * (s[1:] + s[:-1])
    st = V.state(i, w)
    g = st.g
    chipH = np.asarray(w.iotas)[1:] * np.asarray(w.phips)[1:]
    st.field(chipH)
    ev = lambda name, got, want, scale=None: (name, np.asarray(got, float), np.asarray(want, float), scale)
    B = np.sqrt(np.abs(st.b2))
    # ---- sign, modes, bookkeeping
    yield ev("signgs", np.sign(st.gsqrt.mean()), sg, 1)
    yield ev("jacobian sign", np.min(st.gsqrt * sg) > 0, True, 1)
    for k, x in (("nfp", i.nfp), ("mpol", i.mpol), ("ntor", i.ntor), ("lasym", i.lasym), ("lfreeb", i.lfreeb), ("ns", i.ns_array[-1]),
                 ("gamma", i.gamma), ("ftolv", i.ftol_array[-1])):
        yield ev(k, getattr(w, k), x, 1)
    modes = [(0, n) for n in range(i.ntor + 1)] + [(m, n) for m in range(1, i.mpol) for n in range(-i.ntor, i.ntor + 1)]
    yield ev("xm", w.xm, [m for m, _ in modes], 1)
    yield ev("xn", w.xn, [n * nfp for _, n in modes], 1)
    yield ev("mnmax", [w.mnmax, w.mnmax_nyq], [len(w.xm), len(w.xm_nyq)], 1)
    ext = np.asarray(i.extcur) if i.lfreeb else np.zeros(0)
    if i.lfreeb:
        yield ev("extcur", w.extcur, ext, max(mx(ext), 1e-300))
        yield ev("nextcur", w.nextcur, len(ext), 1)
    for k in ("am", "ac", "ai"):
        yield ev(k, np.asarray(getattr(w, k))[:len(getattr(i, k))], getattr(i, k), max(1e-300, mx(getattr(i, k))))
    # ---- prescribed profiles
    if list(np.asarray(i.aphi)) == [1.0]:
        fl = lambda x: x
        dfl = lambda x: 1 + 0 * x
    else:
        a = np.asarray(i.aphi, float) / np.sum(i.aphi)
        fl = lambda x: sum(c * x ** (k + 1) for k, c in enumerate(a))
        dfl = lambda x: sum(c * (k + 1) * x ** k for k, c in enumerate(a))
    pe = i.phiedge
    phipH = sg * pe / (2 * PI) * dfl(sh)
    yield ev("phips", np.asarray(w.phips)[1:], phipH, abs(pe))
    yield ev("phipf", w.phipf, pe * dfl(s), abs(pe))
    cum = np.concatenate([[0], np.cumsum(np.asarray(w.phips)[1:])]) * 2 * PI * ds * sg
    yield ev("phi", w.phi, cum, abs(pe))
    yield ev("phi edge", abs(w.phi[-1] / pe - 1) < (1e-9 if len(i.aphi) < 3 else 0.02), True, 1)
    yield ev("chi", w.chi, np.concatenate([[0], np.cumsum(chipH)]) * 2 * PI * ds, abs(pe))
    fH = np.minimum(fl(sh), 1)
    mass_like = None
    if i.pmass_type == "power_series" and i.spres_ped == 1.0 and i.bloat == 1.0:
        mass_like = i.pres_scale * power(i.am, fH)
        if i.gamma == 0:
            yield ev("pres is the prescribed pressure", w.pres[1:], mass_like, max(mx(mass_like), 1e-300))
        vpg = np.abs(np.asarray(w.vp)[1:]) ** i.gamma
        yield ev("pres = mass/vp^gamma", w.pres[1:] * vpg, w.mass[1:], max(mx(w.mass), 1e-300))
    if i.ncurr == 0 and i.piota_type == "power_series":
        # the reported poloidal angle is right-handed; the transform changes sign if the prescribed one is not
        rb, zb = np.asarray(i.rbc, float), np.asarray(i.zbs, float)
        hand = 1 if (rb[1].sum() * zb[1].sum()) > 0 else -1
        yield ev("iota is the prescribed transform", w.iotas[1:], hand * power(i.ai, fH), max(1.0, mx(w.iotas)))
    if i.ncurr == 1 and i.pcurr_type == "power_series" and i.bloat == 1.0:
        ip = lambda x: sum(a / (k + 1) * x ** (k + 1) for k, a in enumerate(i.ac)) + 0 * x
        tot = ip(np.array(1.0))
        cur = ip(fH) * (i.curtor / tot if tot != 0 else 0.0)
        want = sg * MU0 * cur / (2 * PI)
        yield ev("enclosed current is the prescribed one", w.buco[1:], want, max(mx(want), mx(w.bvco)))
    # ---- averages and metric-based profiles
    vp = np.asarray(w.vp)[1:]
    presH = np.asarray(w.pres)[1:] * MU0
    dV = st.vp
    J = np.abs(st.gsqrt)
    yield ev("vp", vp, dV, mx(dV))
    yield ev("buco", w.buco[1:], st.buco, mx(st.bvco))
    yield ev("bvco", w.bvco[1:], st.bvco, mx(st.bvco))
    yield ev("wb", w.wb, st.energy_b(), st.energy_b())
    yield ev("wp", w.wp, st.energy_p(presH), st.energy_b())
    b2avg = (st.b2 * J).mean(1) / dV
    yield ev("beta_vol", w.beta_vol[1:], presH / (b2avg / 2), 1)
    yield ev("betaxis", w.betaxis, 1.5 * w.beta_vol[1] - 0.5 * w.beta_vol[2], 1)
    yield ev("over_r", w.over_r[1:], (J / st.r12).mean(1) / dV, mx(w.over_r))
    yield ev("presf", w.presf, full(w.pres[1:]), max(mx(w.presf), 1e-300))
    for k in ("pres", "mass", "iotas", "vp", "buco", "bvco", "phips", "over_r", "beta_vol"):
        yield ev(k + " unused entry", getattr(w, k)[0], 0, 1)
    iof = full(w.iotas[1:])
    yield ev("iotaf", w.iotaf, iof, max(1, mx(iof)))
    if np.all(np.asarray(w.iotaf) != 0):
        yield ev("q", np.asarray(w.q_factor) * w.iotaf, np.ones(ns), 1)
    yield ev("chipf interior", w.chipf[1:-1], 2 * PI * sg * full(chipH)[1:-1], abs(pe))
    dI, dG = sg * np.diff(st.buco) / ds, -sg * np.diff(st.bvco) / ds
    csc = mx(st.bvco) / MU0 / ds
    yield ev("jcurv", w.jcurv, ends(dI) / MU0, csc)
    yield ev("jcuru", w.jcuru, ends(dG) / MU0, csc)
    yield ev("ctor", w.ctor, sg * 2 * PI * (1.5 * st.buco[-1] - 0.5 * st.buco[-2]) / MU0, 2 * PI * mx(st.bvco) / MU0)
    yield ev("rbtor", w.rbtor, 1.5 * st.bvco[-1] - 0.5 * st.bvco[-2], mx(st.bvco))
    yield ev("rbtor0", w.rbtor0, 1.5 * st.bvco[0] - 0.5 * st.bvco[1], mx(st.bvco))
    vpf = 0.5 * (vp[1:] + vp[:-1])
    cf, pf = np.asarray(w.chipf) * sg / (2 * PI), np.asarray(w.phipf) * sg / (2 * PI)
    dp = np.diff(presH) / ds
    num = cf[1:-1] * dI - pf[1:-1] * dG + dp * vpf
    den = np.abs(cf[1:-1] * dI) + np.abs(pf[1:-1] * dG) + np.abs(dp * vpf)
    if np.all(den > 1e-9 * mx(st.bvco) * abs(pe) / ds):
        yield ev("equif", w.equif, ends(num / den), 1)
    # ---- spectra
    for q, f in (("g", st.gsqrt), ("b", B), ("bsupu", st.bsupu), ("bsupv", st.bsupv)):
        a, b = V.project(w, g, f)
        sc = mx(getattr(w, q + "mnc"))
        if q == "bsupu":
            sc = max(sc, mx(w.bsupvmnc) * 1e-3)
        yield ev(q + "mnc", np.asarray(getattr(w, q + "mnc")).T[1:], a, sc)
        if w.lasym:
            yield ev(q + "mns", np.asarray(getattr(w, q + "mns")).T[1:], b, sc)
    xmq, xnq = np.asarray(w.xm_nyq), np.asarray(w.xn_nyq) // nfp
    res = (xmq < w.mpol) & (np.abs(xnq) <= w.ntor)
    bsubv = hybrid_bsubv(st)
    bsubs = radial_component(st)
    bsc = {"bsubu": mx(st.bsubu), "bsubv": mx(st.bsubv)}
    for q, f in (("bsubu", st.bsubu), ("bsubv", bsubv)):
        a, b = V.project(w, g, f)
        a, b = a * res, b * res
        yield ev(q + "mnc", np.asarray(getattr(w, q + "mnc")).T[1:], a, bsc[q])
        if w.lasym:
            yield ev(q + "mns", np.asarray(getattr(w, q + "mns")).T[1:], b, bsc[q])
    a, b = V.project(w, g, bsubs)
    ssc = max(mx(a), mx(b), 1e-6 * mx(w.bvco))
    bs = np.asarray(w.bsubsmns).T
    yield ev("bsubsmns", bs[1:], b, ssc)
    yield ev("bsubsmns axis", bs[0], 2 * bs[1] - bs[2], ssc)
    if w.lasym:
        bc = np.asarray(w.bsubsmnc).T
        yield ev("bsubsmnc", bc[1:], a, ssc)
    # ---- currents from the covariant spectra (Ampere)
    sH, sF = np.sqrt(sh), np.sqrt(s[1:-1])

    def radial(x, odd):
        """(value, d/ds) on the interior full grid of a half-grid spectrum x[j, mn]"""
        lo, hi = x[:-1], x[1:]
        d = (hi - lo) / ds
        bo, bi = hi / sH[1:, None], lo / sH[:-1, None]
        do = (bo - bi) / ds * sF[:, None] + 0.25 * (bo + bi) / sF[:, None]
        vo = 0.5 * (hi * sH[1:, None] + lo * sH[:-1, None]) / sF[:, None]
        return np.where(odd, vo, 0.5 * (hi + lo)), np.where(odd, do, d)
    odd = xmq % 2 == 1
    for p, q, sgn in (("mnc", "mns", -1), ("mns", "mnc", 1)):
        if p == "mns" and not w.lasym:
            continue
        S0, _ = radial(np.asarray(getattr(w, "bsubs" + q)).T[1:], odd)
        _, U1 = radial(np.asarray(getattr(w, "bsubu" + p)).T[1:], odd)
        _, V1 = radial(np.asarray(getattr(w, "bsubv" + p)).T[1:], odd)
        cu, cv = (sgn * xnq * nfp * S0 - V1) / MU0, (sgn * xmq * S0 + U1) / MU0
        sc = max(mx(cu), mx(cv), mx(w.bvco) / MU0)
        for nm, c in (("curru", cu), ("currv", cv)):
            r = np.asarray(getattr(w, nm + p)).T
            yield ev(nm + p, r[1:-1], c, sc)
            yield ev(nm + p + " edge", r[-1], 2 * r[-2] - r[-3], sc)
            yield ev(nm + p + " axis", r[0], np.where(xmq <= 1, 2 * r[1] - r[2], 0), sc)
    # ---- stream function on the half grid
    for k in ("lmns",) + (("lmnc",) if w.lasym else ()):
        lf = np.asarray(getattr(w, k + "_full")).T
        m = np.asarray(w.xm)
        x = np.zeros((ns - 1, len(m)))
        sq = np.sqrt(np.maximum(s, 1e-300))
        for j in range(ns - 1):
            lo, hi = lf[j], lf[j + 1]
            e_ = 0.5 * (lo + hi)
            lo_odd = np.where(m == 1, hi / sq[j + 1], 0) if j == 0 else lo / sq[j]
            o_ = 0.5 * np.sqrt(sh[j]) * (lo_odd + hi / sq[j + 1])
            e_ = np.where((j == 0) & (m > 0), 0.5 * hi, e_)
            e_ = np.where((j == 0) & (m == 0), hi, e_)
            x[j] = np.where(m % 2 == 1, o_, e_)
        yield ev(k, np.asarray(getattr(w, k)).T[1:], x, max(mx(lf), 1e-6))
    # ---- geometry of the boundary
    f = st.f
    Rb, Zb = f["re"][-1] + f["ro"][-1], f["ze"][-1] + f["zo"][-1]
    Ru, Zu = f["rue"][-1] + f["ruo"][-1], f["zue"][-1] + f["zuo"][-1]
    Rv, Zv = f["rve"][-1] + f["rvo"][-1], f["zve"][-1] + f["zvo"][-1]
    area, vol = 2 * PI * abs((Rb * Zu).mean()), 2 * PI ** 2 * abs((Rb ** 2 * Zu).mean())
    t = o.threed1_geometric_magnetic
    surf = 4 * PI ** 2 * np.sqrt(Rb ** 2 * (Ru ** 2 + Zu ** 2) + (Rv * Zu - Zv * Ru) ** 2).mean()
    for nm, a_, b_ in (("volume", w.volume, vol), ("Rmajor", w.Rmajor_p, vol / (2 * PI * area)), ("Aminor", w.Aminor_p, np.sqrt(area / PI)),
                       ("aspect", w.aspect, vol / (2 * PI * area) / np.sqrt(area / PI)), ("rmax", w.rmax_surf, Rb.max()), ("rmin", w.rmin_surf, Rb.min()),
                       ("cross area", t.cross_area_p, area), ("volume_p", t.volume_p, vol), ("surface area", t.surf_area_p, surf),
                       ("circumference", t.circum_p, 2 * PI * np.sqrt(Ru ** 2 + Zu ** 2).mean()), ("rmax t", t.rmax_surf, Rb.max()),
                       ("rmin t", t.rmin_surf, Rb.min())):
        yield ev(nm, a_, b_, abs(b_))
    zm = mx(Zb)
    yield ev("zmax", w.zmax_surf, min((zm, Zb.max()), key=lambda x: abs(x - w.zmax_surf)) if w.lasym else zm, zm)
    sumb = 4 * PI ** 2 * ds * (st.b2 * J).mean(1).sum()
    sumt = 4 * PI ** 2 * ds * ((st.r12 * st.bsupv) ** 2 * J).mean(1).sum()
    sump = 4 * PI ** 2 * ds * (presH * dV).sum()
    for nm, a_, b_, c_ in (("betatotal", w.betatotal, 2 * sump / sumb, 1), ("betator", w.betator, 2 * sump / sumt, 1),
                           ("betapol", w.betapol, 2 * sump / (sumb - sumt), max(1, 2 * sump / (sumb - sumt))), ("volavgB", w.volavgB, np.sqrt(sumb / vol), w.volavgB),
                           ("IonLarmor", w.IonLarmor, 3.2e-3 / w.volavgB, w.IonLarmor), ("b0", w.b0, w.rbtor0 / w.raxis_cc[0], abs(w.b0)) if 0 else ("b0", w.b0, w.rbtor0 / offset(st), abs(w.b0))):
        yield ev(nm, a_, b_, c_)
    tv = o.threed1_volumetrics
    for nm, x in (("p", sump), ("bpol", (sumb - sumt) / 2), ("btor", sumt / 2), ("modb", sumb / 2), ("ekin", 1.5 * sump)):
        yield ev("int_" + nm, getattr(tv, "int_" + nm), x / MU0, sumb / MU0)
        yield ev("avg_" + nm, getattr(tv, "avg_" + nm), x / MU0 / vol, sumb / MU0 / vol)
    tb = o.threed1_betas
    for a_, b_ in (("betatot", w.betatotal), ("betapol", w.betapol), ("betator", w.betator), ("betaxis", w.betaxis)):
        yield ev("threed1 " + a_, getattr(tb, a_), b_, 1)
    yield ev("betstr", tb.betstr, 2 * np.sqrt(4 * PI ** 2 * ds * (presH ** 2 * dV).sum() / vol) / (sumb / vol), 1)
    # ---- axis
    n = np.arange(i.ntor + 1)
    sel = [int(np.where((np.asarray(w.xm) == 0) & (np.asarray(w.xn) == k * nfp))[0][0]) for k in n]
    yield ev("raxis_cc", w.raxis_cc, np.asarray(w.rmnc)[sel, 0], w.Rmajor_p)
    yield ev("zaxis_cs", w.zaxis_cs, np.asarray(w.zmns)[sel, 0], w.Rmajor_p)
    ta = o.threed1_axis
    yield ev("axis table r", ta.raxis_symm, w.raxis_cc, w.Rmajor_p)
    if i.ntor:
        yield ev("axis table z", ta.zaxis_symm, w.zaxis_cs, w.Rmajor_p)
    if w.lasym:
        yield ev("raxis_cs", w.raxis_cs, np.asarray(w.rmns)[sel, 0], w.Rmajor_p)
        yield ev("zaxis_cc", w.zaxis_cc, np.asarray(w.zmnc)[sel, 0], w.Rmajor_p)
    # ---- boundary as prescribed
    if not i.lfreeb:
        same = boundary_points(i)
        if same is not None:
            pr, pz = same(g)
            yield ev("boundary R", np.sort(Rb), np.sort(pr), w.Rmajor_p) if False else ev("boundary curve", curve_distance(Rb, Zb, pr, pz, g), 0.0, w.Rmajor_p)
    # ---- first table
    tf = o.threed1_first_table
    phl = full(2 * PI * sg * np.asarray(w.phips)[1:])
    vpe = ends(vpf)
    for nm, a_, b_, c_ in (("tab s", tf.s, s, 1), ("tab force", tf.radial_force, w.equif, 1 + mx(w.equif)), ("tab iota", tf.iota, w.iotaf, 1 + mx(w.iotaf)),
                           ("tab flux", tf.toroidal_flux, cum, abs(pe)),
                           ("tab pressure", tf.pressure, w.presf, max(1e-300, mx(w.presf))), ("tab jdotb", tf.j_dot_b, w.jdotb, 1 + mx(w.jdotb)),
                           ("tab bdotb", tf.b_dot_b, w.bdotb, mx(w.bdotb)), ("tab jsupv", tf.avg_jsupv * vpe, w.jcurv, csc), ("tab jsupu", tf.avg_jsupu * vpe, w.jcuru, csc),
                           ("tab dVdphi", tf.d_volume_d_phi * phl, sg * 4 * PI ** 2 * vpe, mx(vpe) * 40), ("tab dpdphi", tf.d_pressure_d_phi * phl, ends(dp) / MU0, max(1e-300, mx(dp) / MU0)),
                           ("tab specw", tf.spectral_width, w.specw, mx(w.specw)),
                           ("tab buco", tf.buco_full[1:], full(st.buco)[1:], mx(st.bvco)), ("tab bvco", tf.bvco_full, full(st.bvco), mx(st.bvco))):
        yield ev(nm, a_, b_, c_)
    # ---- |B| range per poloidal position
    nr = g.nt // 2 + 1
    Bk = B.reshape(ns - 1, g.nz, g.nt)[:, :, :nr]
    yield ev("bmin", t.bmin, Bk.min(1), mx(B))
    yield ev("bmax", t.bmax, Bk.max(1), mx(B))
    Rk, Zk = Rb.reshape(g.nz, g.nt), Zb.reshape(g.nz, g.nt)
    ks = [0] + ([g.nz // 2] if i.ntor else [])
    yield ev("waist", np.abs(t.waist), [abs(Rk[k, 0] - Rk[k, g.nt // 2]) for k in ks], w.Rmajor_p)
    for q, k in enumerate(ks):
        hz = 2 * mx(Zk[k])
        yield ev("height", t.height[q], 2 * Zk[k].max() if w.lasym and abs(t.height[q] - 2 * Zk[k].max()) < 1e-9 else hz, w.Rmajor_p)
    # ---- currents on the grid, Mercier
    yield from local_currents(i, o, st, bsubv, bsubs, vpf, presH, chipH)


def offset(st):
    """R of the axis at theta=zeta=0 grid origin, as the cylindrical reference radius"""
    return st.c["rmnc"][0][st.xm == 0].sum()


def hybrid_bsubv(st):
    """covariant toroidal field as VMEC reports it: blended full-grid value moved inwards, mean fixed to the enclosed poloidal current"""
    f, s = st.f, st.s
    av = lambda x: 0.5 * (x[1:] + x[:-1])
    beta = (2 * 0.05 * (1 - s))[1:-1, None]
    sH = np.sqrt(st.sh)[:, None]
    og = st.gvv / st.gsqrt
    alt = av(og) * f["lue"][1:-1] + av(og * sH) * f["luo"][1:-1] + av(st.guv * st.bsupu)
    F = (1 - beta) * av(st.bsubv) + beta * alt
    b = st.bsubv.copy()
    for j in range(len(b) - 2, -1, -1):
        b[j] = 2 * F[j] - b[j + 1]
    return b - b.mean(1)[:, None] + st.bvco[:, None]


def radial_component(st):
    f = st.f
    av = lambda x: 0.5 * (x[1:] + x[:-1])
    sq = np.sqrt(st.sh)[:, None]
    rs = st.rs + av(f["ro"]) / (2 * sq)
    zs = st.zs + av(f["zo"]) / (2 * sq)
    return st.bsupu * (rs * st.ru12 + zs * st.zu12) + st.bsupv * (rs * st.rv12 + zs * st.zv12)


def boundary_points(i):
    rbc, zbs = np.asarray(i.rbc, float), np.asarray(i.zbs, float)
    z = np.zeros_like(rbc)
    rbs = np.asarray(i.rbs, float) if i.lasym and i.rbs is not None else z
    zbc = np.asarray(i.zbc, float) if i.lasym and i.zbc is not None else z

    def at(g):
        T, Z = np.linspace(0, 2 * PI, 721)[:-1], np.unique(g.Z)
        R, ZZ = np.zeros((len(Z), len(T))), np.zeros((len(Z), len(T)))
        for m in range(rbc.shape[0]):
            for k in range(rbc.shape[1]):
                n = (k - i.ntor) * i.nfp
                a = m * T[None] - n * Z[:, None]
                R += rbc[m, k] * np.cos(a) + rbs[m, k] * np.sin(a)
                ZZ += zbs[m, k] * np.sin(a) + zbc[m, k] * np.cos(a)
        return R, ZZ
    return at


def curve_distance(Rb, Zb, pr, pz, g):
    """largest distance of the reported boundary points from the prescribed cross-section curve"""
    Rk, Zk = Rb.reshape(g.nz, g.nt), Zb.reshape(g.nz, g.nt)
    worst = 0.0
    for k in range(g.nz):
        c = pr[k] + 1j * pz[k]
        d = np.roll(c, -1) - c
        for p in Rk[k] + 1j * Zk[k]:
            t = np.clip(((p - c) * d.conjugate()).real / np.abs(d) ** 2, 0, 1)
            worst = max(worst, np.min(np.abs(c + t * d - p)))
    return max(0.0, worst - 2e-5 * np.max(np.abs(pr)))     # chord error of the polygon


def local_currents(i, o, st, bsubv, bsubs, vpf, presH, chipH):
    w, g, ds, sg = o.wout, st.g, st.ds, o.wout.signgs
    ns = w.ns
    j = o.jxbout
    red = np.ones(g.nt * g.nz, bool)
    if not w.lasym:
        red = np.tile(np.arange(g.nt) <= g.nt // 2, g.nz)
    av = lambda x: 0.5 * (x[1:] + x[:-1])
    bu, buu, buv = smooth(w, g, st.bsubu)
    bv, bvu, bvv = smooth(w, g, bsubv)
    bs, bsu, bsv = smooth(w, g, av(bsubs))
    csc = max(mx(bv), mx(bu)) / MU0 / ds
    itheta, izeta = (bsv - np.diff(bv, axis=0) / ds) / MU0, (np.diff(bu, axis=0) / ds - bsu) / MU0
    ev = lambda name, got, want, scale: (name, np.asarray(got, float), np.asarray(want, float), scale)
    yield ev("jxb bsubu", j.bsubu3[:-1], bu[:-1][:, red], mx(bu) + 1e-6 * mx(bv))
    yield ev("jxb bsubv", j.bsubv3[:-1], bv[:-1][:, red], mx(bv))
    yield ev("itheta", j.itheta[1:-1], itheta[:, red], csc)
    yield ev("izeta", j.izeta[1:-1], izeta[:, red], csc)
    gs = av(st.gsqrt)
    bsupu, bsupv = av(st.bsupu * st.gsqrt) / gs, av(st.bsupv * st.gsqrt) / gs
    ovp = (1 / vpf / (4 * PI ** 2))[:, None]
    yield ev("jxb bsupu", j.bsupu3[1:-1], bsupu[:, red], mx(bsupu) + 1e-3 * mx(bsupv))
    yield ev("jxb bsupv", j.bsupv3[1:-1], bsupv[:, red], mx(bsupv))
    yield ev("jxb sqrtg", j.sqrtg3[1:-1], (gs * ovp)[:, red], mx(gs * ovp))
    yield ev("jsupu", j.jsupu3[1:-1], (itheta * ovp)[:, red], csc * mx(ovp))
    yield ev("jsupv", j.jsupv3[1:-1], (izeta * ovp)[:, red], csc * mx(ovp))
    jxb = ovp * (itheta * bsupv - izeta * bsupu)
    dp = np.diff(np.asarray(w.pres)[1:]) / ds
    yield ev("jcrossb", j.jcrossb[1:-1], jxb[:, red], csc * mx(ovp) * mx(bsupv))
    yield ev("jxb-gradp", j.jxb_gradp[1:-1], (jxb - dp[:, None] * ovp)[:, red], csc * mx(ovp) * mx(bsupv))
    bdotk = itheta * av(bu) + izeta * av(bv)
    ksc = csc * mx(bv)
    yield ev("bdotk", j.bdotk[1:-1], bdotk[:, red], ksc)
    yield ev("avforce", j.avforce[1:-1], (jxb - dp[:, None] * ovp).mean(1), csc * mx(ovp) * mx(bsupv))
    yield ev("pprim", j.pprim[1:-1], dp * ovp[:, 0], max(mx(dp * ovp[:, 0]), 1e-300))
    jb = sg * bdotk.mean(1) / vpf
    yield ev("jdotb", w.jdotb, ends(jb), ksc / vpf.min())
    sqgb2 = av(st.gsqrt * st.b2)
    yield ev("bdotb", w.bdotb, ends(sg * sqgb2.mean(1) / vpf), mx(w.bdotb))
    ph = np.asarray(w.phips)[1:]
    yield ev("bdotgradv", w.bdotgradv, ends(sg * 0.5 * (ph[1:] + ph[:-1]) / vpf), mx(w.bdotgradv))
    yield ev("jpar2", j.jpar2[1:-1], sg * (bdotk ** 2 / sqgb2).mean(1) / vpf, csc ** 2 * 10)
    ksup = ((np.diff(np.asarray(w.pres)[1:]) / ds)[:, None])
    # radial current density
    vph = np.asarray(w.vp)[1:, None] * 4 * PI ** 2
    yield ev("jsups", j.jsups3[:-1], ((buv - bvu) / MU0 / vph)[:-1][:, red], max(mx((buv - bvu) / MU0 / vph), 1e-2 * mx(bv) / MU0 / vph.min()))
    phi = np.asarray(w.phi)
    yield ev("phin", j.phin[1:], phi[1:] / phi[-1], 1)
    # ---- Mercier
    m = o.mercier
    pr = 2 * PI * sg * ph
    prf = av(pr)
    vpr = sg * 4 * PI ** 2 * np.asarray(w.vp)[1:] / pr
    tor = sg * 2 * PI * bu.mean(1)
    den = prf * ds
    shear, vpp, pp, ip = (np.diff(x) / den for x in (np.asarray(w.iotas)[1:], vpr, presH, tor))
    gf = gs / prf[:, None]
    f = st.f
    sF = np.sqrt(st.s)[1:-1, None]
    F = lambda k: f[k + "e"][1:-1] + sF * f[k + "o"][1:-1]
    gpp = gf ** 2 / ((F("ru") ** 2 + F("zu") ** 2) * F("r") ** 2 + (F("ru") * F("zv") - F("rv") * F("zu")) ** 2)
    b2 = av(st.b2)
    bdj = bdotk * MU0 / gs
    k4 = 4 * PI ** 2
    tpp, tbb = k4 * (gf / b2).mean(1), k4 * (b2 * gf * gpp).mean(1)
    tjb, tjj = k4 * (bdj * gpp * gf).mean(1), k4 * (bdj ** 2 * gpp * gf / b2).mean(1)
    D = {"DShear": shear ** 2 / 4, "DCurr": -shear * (tjb - ip * tbb), "DWell": pp * (vpp - pp * tpp) * tbb, "DGeod": tjb ** 2 - tbb * tjj}
    jm = csc * MU0 * mx(bv) / np.abs(gs).min(1)
    noise = np.abs(shear) * k4 * (jm[:, None] * np.abs(gpp * gf)).mean(1)
    nz = {"DShear": 0 * noise, "DCurr": noise, "DWell": np.abs(pp) * np.abs(tbb) * np.abs(vpr[1:]) / np.abs(den), "DGeod": (k4 * (jm[:, None] * np.abs(gpp * gf)).mean(1)) ** 2}
    tot = sum(D.values())
    for k, x in D.items():
        sc = mx(x) + 1e-3 * mx(nz[k]) + 1e-300
        yield ev(k, getattr(w, k)[1:-1], x, sc)
    yield ev("DMerc", w.DMerc[1:-1], tot, sum(mx(x) for x in D.values()) + 1e-3 * sum(mx(x) for x in nz.values()) + 1e-300)
    for nm, a_, b_ in (("DMerc", m.DMerc, w.DMerc), ("DShear", m.Dshear, w.DShear), ("DWell", m.Dwell, w.DWell), ("DCurr", m.Dcurr, w.DCurr), ("DGeod", m.Dgeod, w.DGeod)):
        yield ev("mercier " + nm, a_, b_, 1 + mx(b_))
    vf = av(vpr)
    for nm, a_, b_ in (("iota", m.iota, av(np.asarray(w.iotas)[1:])), ("shear", m.shear, shear / vf), ("dvds", m.d_volume_d_s, vf), ("well", m.well, -vpp * sg),
                       ("current", m.toroidal_current, av(tor)), ("dcurrent", m.d_toroidal_current_d_s, ip / vf), ("pressure", m.pressure, av(presH)),
                       ("dpressure", m.d_pressure_d_s, pp / vf)):
        extra = {"current": 2 * PI * mx(bv), "dcurrent": 2 * PI * mx(bv) / np.abs(den * vf).min(), "shear": 1 / np.abs(den * vf).min(), "iota": 1}.get(nm, 0)
        yield ev("mercier " + nm, a_[1:-1], b_, mx(b_) + extra + 1e-300)


class Ctx:
    def __init__(self):
        self.v = vlib.load_vmecpp()
        E.quiet()
        self.e = {k: (i, None) for k, i in E.fixed(self.v).items()} | E.free(self.v)

    def inp(self, case):
        name, mods = case
        i, t = self.e[name]
        kw = dict(mods)
        ns, ftol, niter = kw.pop("ns", i.ns_array[-1]), kw.pop("ftol", i.ftol_array[-1]), kw.pop("niter", i.niter_array[-1])
        if kw.pop("aslasym", False):
            z = np.zeros_like(i.rbc)
            kw |= dict(lasym=True, rbs=z, zbc=z.copy(), raxis_s=0 * i.raxis_c, zaxis_c=0 * i.raxis_c)
        fl = kw.pop("flip", False)
        i = E.one(E.derive(i, **kw), int(ns), float(ftol), int(niter))
        if fl:
            x = dict(zbs=-i.zbs)
            if i.lasym:
                x |= dict(rbs=-i.rbs)
            i = E.derive(i, **x)
        return i, t


def run(c, case):
    i, t = c.inp(case)
    return evaluate(c, case, i, t)


def evaluate(c, case, i, t):
    try:
        o = c.v.run(i, magnetic_field=t, max_threads=1, verbose=False)
    except RuntimeError as e:
        return ("error", str(e)[:300])
    bad, n, worst = [], 0, (0.0, "")
    with np.errstate(all="ignore"):
        for name, got, want, scale in relations(i, o, True):
            n += 1
            if got.shape != want.shape:
                bad.append((name, f"shape {got.shape}, expected {want.shape}"))
                continue
            if i.ns_array[-1] == 3 and name in ENDS:          # one interior surface: nothing to extrapolate from
                got, want = got[1:-1], want[1:-1]
            if not np.array_equal(np.isfinite(got), np.isfinite(want)):
                bad.append((name, f"reported {got.ravel()[:6]}, expected {want.ravel()[:6]}"))
                continue
            m = np.isfinite(want)
            d = np.abs(got - want)[m].max(initial=0) / (scale or 1)
            if d > worst[0]:
                worst = (float(d), name)
            if not d <= TOL:
                k = np.unravel_index(np.argmax(np.where(m, np.abs(got - want), 0)), got.shape) if got.shape else ()
                bad.append((name, f"differs by {d:.3g} (relative) at {tuple(int(x) for x in k)}: reported {got[k]!r}, expected {want[k]!r}"))
    return ("ok", bad, n, worst, bool(i.return_outputs_even_if_not_converged))


def cases():
    out = []
    names = ["sol", "solan", "circ", "udas", "cth", "li", "cma", "ell", "ela", "solf", "cthf", "cthfa", "solfa"]
    for n in names:
        fr = n in ("solf", "cthf", "cthfa", "solfa")
        for ns in (3, 4, 5, 6, 8, 9, 12, 16) if TH else (3, 4, 5, 8, 9):
            out.append((n, {"ns": ns}))
        if fr and TH:
            out.append((n, {"niter": 20000, "ftol": 1e-11}))
        if n not in ("udas", "ela", "cthfa", "solfa"):
            out.append((n, {"aslasym": True} | ({"niter": 8000})))
    for n in ("sol", "ell", "ela", "li"):
        for g in (5.0 / 3, 1.4, 2.0):
            out.append((n, {"gamma": g, "am": E.A(0.02, -0.02)}))
        out.append((n, {"am": E.A(0.0), "pres_scale": 1.0}))
        for ps in (0.5, 2.0):
            out.append((n, {"pres_scale": ps}))
        out.append((n, {"flip": True}))
        for ph in (-1.0, 0.3):
            out.append((n, {"phiedge": ph * {"sol": 1.0, "ell": 0.1, "ela": 0.1, "li": 0.5}[n]}))
        for a in ((0.7, 0.3), (0.8, 0.0, 0.2), (0.5, 0.5)):
            out.append((n, {"aphi": E.A(*a), "niter": 8000}))
    for n in ("ell", "ela", "cth"):
        for cur in (0.0, 1e4, -2e4):
            for ac in ((1.0,), (1.0, -1.0), (0.0, 1.0, -0.5)):
                out.append((n, {"ncurr": 1, "curtor": cur, "ac": E.A(*ac), "pcurr_type": "power_series"}))
    for n in ("ell", "ela"):
        for nt in (0, 14, 16, 18, 15):
            for nz in (0, 8, 9, 10, 11, 13, 16):
                out.append((n, {"ntheta": nt, "nzeta": nz}))
        for nfp in (1, 2, 4, 5):
            out.append((n, {"nfp": nfp}))
    for n in ("sol", "udas"):
        for nt in (0, 20, 22, 24, 31):
            out.append((n, {"ntheta": nt}))
        for nz in (2, 3, 8):
            out.append((n, {"nzeta": nz}))
    for n in ("cthf", "cthfa"):
        for sc in (1.0,):
            out.append((n, {"nvacskip": 1}))
    return out


def check():
    chk = vlib.Check("N02", "exploration", "run configurations (equilibria x radial/angular resolutions x profile kinds x symmetry x convergence state) x every reported quantity against its defining relation",
                     ["relations are evaluated with an independent implementation of the discrete representation (lib/vmecref.py)"])
    vlib.build(["_vmecpp"])
    cs = cases()
    out = vlib.pmap(cs, run_case, init=Ctx, timeout=120)
    rel, ran, worst = 0, 0, (0.0, "")
    for c, r in zip(cs, out):
        tag = c[0] + ":" + ",".join(f"{k}={v.tolist() if hasattr(v, 'tolist') else v}" for k, v in c[1].items())
        if r.kind != "ok":
            chk.fail(f"{r.kind}:{tag}", f"{c} -> {r}", {"case": repr(c)})
            continue
        if r.value[0] == "error":
            chk.seen(("error", c[0]))
            chk.sample(f"{tag}: {r.value[1]}")
            chk.cov.setdefault("runs_with_error", []).append(tag)
            continue
        _, bad, n, wst, _nc = r.value
        ran += 1
        rel += n
        worst = max(worst, wst)
        chk.seen((c[0], tuple(sorted(c[1]))))
        for name, d in bad:
            chk.fail(f"{name}:{tag}", f"{tag}: {name} {d}", {"case": repr(c)})
    chk.cov |= {"configurations": len(cs), "runs_with_result": ran, "relations_evaluated": rel, "largest_accepted_deviation": worst[0], "where": worst[1]}
    if ran < 0.8 * len(cs):
        chk.fail("too-few-results", f"only {ran} of {len(cs)} configurations gave a result: {chk.cov.get('runs_with_error')}")
    return chk


def run_case(c, case):
    i, t = c.inp(case)
    return evaluate(c, case, i, t)


vlib.main(check)
