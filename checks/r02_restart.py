"""R02: every ordered pair (and chain) of input variants of an equilibrium is restarted from one another and
compared with cold starts; every kind of mismatching state must be refused."""
import itertools as it
import os
import numpy as np
import equil as E
import vlib

TH = os.environ.get("VERIF_TIER") == "thorough"
GEO = ["rmnc", "zmns", "lmns_full", "iotas", "iotaf", "volume", "bmnc", "gmnc", "bsubumnc", "bsupvmnc", "wb", "aspect", "vp", "presf", "phi", "b0"]


INV = ["iotas", "iotaf", "volume", "wb", "aspect", "vp", "presf", "phi", "b0", "betatotal", "Rmajor_p", "Aminor_p", "IonLarmor", "bvco"]


def fields(i):
    return GEO + (["rmns", "zmnc", "lmnc_full", "bmns", "gmns"] if i.lasym else [])


def asdiff(a, b, flds):
    """like wdiff, but symmetric and non-symmetric parts share their scale"""
    fa, fb = E.wout_fields(a), E.wout_fields(b)
    w = (0.0, "")
    for k in flds:
        if k not in fa or k not in fb or fa[k].shape != fb[k].shape or not np.all(np.isfinite(fb[k])):
            return (float("inf"), k)
        tw = k.replace("mns", "mnc") if "mns" in k else k.replace("mnc", "mns")
        s = max(np.max(np.abs(fa[k])), np.max(np.abs(fa[tw])) if tw in fa else 0)
        if k == "zmnc":
            s = max(s, np.max(np.abs(fa["zmns"])))
        d = np.max(np.abs(fa[k] - fb[k])) / s if s else 0.0
        w = max(w, (float(d), k))
    return w


def variants(v, name, i):
    """name -> input: changed pressure, profile, flux, shape, coil currents"""
    out = {"base": i}
    out["flux"] = E.derive(i, phiedge=i.phiedge * 1.05)
    if np.any(i.am != 0):
        out["pres"] = E.derive(i, pres_scale=i.pres_scale * 0.9)
    if i.ncurr == 0 or name in ("sol", "ell", "ela", "circ"):
        a = i.ai.copy()
        if a.size:
            a[0] *= 1.04
            out["iota"] = E.derive(i, ai=a)
    else:
        out["curr"] = E.derive(i, curtor=i.curtor * 1.05 if i.curtor else 50.0)
    if i.lfreeb:
        x = i.extcur.copy()
        x *= 1.01
        out["coils"] = E.derive(i, extcur=x)
    else:
        n = i.ntor
        b, z = i.rbc.copy(), i.zbs.copy()
        b[1, n] *= 1.02
        z[2, n] += 0.01 * b[1, n]
        if name != "cma":                                # (a cold start of the changed cma fails)
            out["shape"] = E.derive(i, rbc=b, zbs=z)
        if i.lasym:
            b, z = i.rbs.copy(), i.zbc.copy()
            b[1, n] += 0.01 * i.rbc[1, n]
            z[2, n] += 0.01 * i.rbc[1, n]
            if n:
                z[1, n + 1] += 0.01 * i.rbc[1, n]
            out["shapea"] = E.derive(i, rbs=b, zbc=z)
    return out


class Ctx:
    def __init__(self):
        self.v = vlib.load_vmecpp()
        E.quiet()
        self.e = {k: (i, None) for k, i in E.fixed(self.v).items()} | E.free(self.v)
        self.cold, self.var = {}, {}

    def variants(self, name):
        if name not in self.var:
            self.var[name] = variants(self.v, name, self.e[name][0])
        return self.var[name]

    def run(self, i, name, restart=None, threads=1):
        return self.v.run(i, magnetic_field=self.e[name][1], max_threads=threads, verbose=False, restart_from=restart)

    def get(self, name, var):
        if (name, var) not in self.cold:
            self.cold[name, var] = self.run(self.variants(name)[var], name)
        return self.cold[name, var]


def case_chain(c, case):
    _, name, chain, threads = case
    vs = c.variants(name)
    bad = []
    i0 = vs["base"]
    ftol = float(i0.ftol_array[-1])
    free = bool(i0.lfreeb)
    tol = 2000 * ftol ** 0.5 if free else 3000 * ftol ** 0.5
    state = c.get(name, chain[0])
    n, w, shaped = 1, 0.0, False
    for k, nxt in enumerate(chain[1:]):
        keep_w, keep_i = E.wout_fields(state.wout), state.input.model_dump_json()
        keep_w = {a: b.copy() for a, b in keep_w.items()}
        tag = f"{name} {'->'.join(chain[:k + 2])} threads={threads}"
        try:
            r = c.run(vs[nxt], name, state, threads)
        except RuntimeError as e:
            bad.append((tag, f"restart failed: {str(e)[:300]}"))
            break
        n += 1
        now = E.wout_fields(state.wout)
        if state.input.model_dump_json() != keep_i or any(not np.array_equal(keep_w[a], now[a], equal_nan=True) for a in keep_w):
            bad.append((tag, "the state restarted from was modified"))
        cold = c.get(name, nxt)
        if vs[nxt] is state.input or nxt == chain[k]:
            if not free:
                # already within tolerance: nothing to do
                d = asdiff(state.wout, r.wout, fields(i0))
                if r.wout.itfsq > 0 or not d[0] < 1e-9:
                    bad.append((tag, f"restart with unchanged input took {r.wout.itfsq} steps, {d[1]} changed by {d[0]:.2e}"))
        if not np.all(np.array([r.wout.fsqr, r.wout.fsqz, r.wout.fsql]) <= ftol):
            bad.append((tag, f"result not within tolerance: {r.wout.fsqr} {r.wout.fsqz} {r.wout.fsql}"))
        # the choice of poloidal angle depends on the history of the run; what depends on it is compared loosely
        shaped = shaped or nxt != chain[k]
        d = asdiff(cold.wout, r.wout, INV if i0.lasym or shaped else fields(i0))
        tl = tol if not shaped else max(tol, 4e-3)
        w = max(w, d[0] / tl)
        if i0.lasym or shaped:
            d = max(d, (lambda x: (x[0] * tl / 0.25, x[1]))(asdiff(cold.wout, r.wout, fields(i0))))
        if not d[0] < tl:
            bad.append((tag, f"{d[1]} differs by {d[0]:.2e} from a cold start (allowed {tl:.1e})"))
        if r.wout.itfsq > cold.wout.itfsq * 1.5 + 50:
            bad.append((tag, f"restart took {r.wout.itfsq} steps, cold start {cold.wout.itfsq}"))
        state = r
    return bad, n, w


def case_file(c, case):
    """restart from a state that went through its file"""
    import tempfile
    _, name = case
    bad = []
    a = c.get(name, "base")
    with tempfile.TemporaryDirectory(dir="/tmp") as d:
        a.wout.save(d + "/wout_x.nc")
        w = c.v.VmecWOut.from_wout_file(d + "/wout_x.nc")
    b = a.model_copy(update={"wout": w})
    r = c.run(c.variants(name)["base"], name, b)
    r0 = c.run(c.variants(name)["base"], name, a)
    d = asdiff(r0.wout, r.wout, fields(a.input))
    if r.wout.itfsq != r0.wout.itfsq or not d[0] < 1e-12:
        bad.append((f"{name} file", f"restart from a stored result: {r.wout.itfsq} steps instead of {r0.wout.itfsq}, {d}"))
    return bad, 2, 0.0


def case_mismatch(c, case):
    """states that do not fit must be refused with an error"""
    _, name, what = case
    a = c.get(name, "base")
    i = c.variants(name)["base"]
    ns, ftol, niter = int(i.ns_array[0]), float(i.ftol_array[0]), int(i.niter_array[0])
    st = a
    w = a.wout

    def cutm(x, m, t):
        return np.concatenate([x, np.zeros((x.shape[0], 9))], 1)[:m, :t] if x is not None else None
    def wsz(dm, dt):
        f = {k: getattr(w, k) for k in type(w).model_fields}
        for k in ("rmnc", "zmns", "lmns_full", "rmns", "zmnc", "lmnc_full"):
            if f.get(k) is not None:
                x = f[k]
                f[k] = np.concatenate([np.concatenate([x, np.zeros((x.shape[0], 9))], 1), np.zeros((9, x.shape[1] + 9))], 0)[:x.shape[0] + dm, :x.shape[1] + dt].copy()
        return a.model_copy(update={"wout": type(w).model_construct(**f)})
    def resize(mpol, ntor):
        return E.derive(i, mpol=mpol, ntor=ntor, **{k: c.v.VmecInput.resize_2d_coeff(getattr(i, k), mpol, ntor) for k in ("rbc", "zbs", "rbs", "zbc") if getattr(i, k) is not None},
                        **{k: np.concatenate([getattr(i, k), np.zeros(9)])[:ntor + 1] for k in ("raxis_c", "zaxis_s", "raxis_s", "zaxis_c") if getattr(i, k) is not None})
    may_work = False
    if what == "ns+":
        i = E.one(i, ns + 2, ftol, niter)
    elif what == "ns-":
        i = E.one(i, ns - 2, ftol, niter)
    elif what == "stages-":
        i = E.stages(i, [ns - 2, ns], [ftol] * 2, [niter] * 2)
    elif what == "stages+":
        i = E.stages(i, [ns, ns + 2], [ftol] * 2, [niter] * 2)
        may_work = True
    elif what == "mpol+":
        i = resize(i.mpol + 1, i.ntor)
    elif what == "mpol-":
        i = resize(i.mpol - 1, i.ntor)
    elif what == "ntor+":
        i = resize(i.mpol, i.ntor + 1)
    elif what == "ntor-":
        if i.ntor == 0 or i.lfreeb:
            return [], 0, 0.0
        i = resize(i.mpol, i.ntor - 1)
    elif what == "lasym":
        if i.lasym:
            i = E.derive(i, lasym=False, rbs=None, zbc=None, raxis_s=None, zaxis_c=None)
        else:
            i = E.lift(i, 0.0, 0.0)
    elif what.startswith("w"):
        st = wsz(*map(int, what[1:].split(",")))
    tag = f"{name} {what}"
    try:
        r = c.run(i, name, st)
    except Exception:  # noqa: BLE001
        return [], 1, 0.0
    if may_work:
        cold = c.run(i, name)
        d = asdiff(cold.wout, r.wout, fields(i))
        if not d[0] < 3000 * ftol ** 0.5:
            return [(tag, f"restart over several stages differs from a cold start: {d}")], 2, 0.0
        return [], 2, 0.0
    return [(tag, "restart from a state that does not fit was accepted")], 1, 0.0


def run(c, case):
    import time
    t0 = time.time()
    r = run_(c, case)
    return (*r, time.time() - t0)


def run_(c, case):
    return {"chain": case_chain, "file": case_file, "mismatch": case_mismatch}[case[0]](c, case)


def check():
    chk = vlib.Check("R02", "exploration", "equilibria x all ordered pairs and chains of input variants x threads; every kind of mismatching state",
                     ["agreement with a cold start is judged relative to the force tolerance"])
    vlib.build(["_vmecpp"])
    names = ["sol", "solan", "circ", "udas", "cth", "li", "cma", "ell", "ela", "solf", "cthf", "cthfa", "solfa"]
    v = vlib.load_vmecpp()
    E.quiet()
    ee = {k: i for k, i in E.fixed(v).items()} | {k: i for k, (i, _) in E.free(v).items()}
    cs = []
    for n in names:
        vs = list(variants(v, n, ee[n]))
        pairs = list(it.product(vs, vs))
        cs += [("chain", n, p, t) for p in pairs for t in ((1, 2, 3) if TH else (1,))]
        cs += [("chain", n, (a, b, a), 2) for a, b in it.permutations(vs, 2) if TH or n not in ("cthfa", "solfa")]
        if TH:
            cs += [("chain", n, p, 1) for p in it.product(vs, vs, vs) if p[0] != p[1] and p[1] != p[2]]
            cs += [("chain", n, p + (p[0],), 1) for p in it.permutations(vs, 3)]
        cs.append(("file", n))
        cs += [("mismatch", n, w) for w in ("ns+", "ns-", "stages-", "stages+", "mpol+", "mpol-", "ntor+", "ntor-", "lasym", "w0,-1", "w0,2", "w-1,0", "w3,0", "w0,-4")]
    out = vlib.pmap(cs, run, init=Ctx, timeout=200)
    runs, worst, slow = 0, 0.0, []
    for cse, r in zip(cs, out):
        if r.kind != "ok":
            chk.fail(f"{r.kind}:{cse}", f"{cse} -> {r}", {"case": repr(cse)})
            continue
        bad, n, w, dt = r.value
        slow.append((dt, cse))
        runs += n
        worst = max(worst, w)
        chk.seen(cse[:3] + (len(bad),))
        for tag, d in bad:
            chk.fail(tag, d, {"case": repr(cse)})
    chk.cov |= {"cases": len(cs), "runs": runs, "worst_fraction_of_tolerance": worst}
    return chk


vlib.main(check)
