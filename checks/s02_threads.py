"""S02: every (equilibrium, radial resolution or stage ladder, thread count) gives the single-threaded outcome."""
import os
import numpy as np
import equil as E
import vlib

os.environ["OMP_WAIT_POLICY"] = "passive"
os.environ["GOMP_SPINCOUNT"] = "0"
TH = os.environ.get("VERIF_TIER") == "thorough"
diff = E.fdiff


class Ctx:
    def __init__(self):
        self.v = vlib.load_vmecpp()
        E.quiet()
        self.e = {k: (i, None) for k, i in E.fixed(self.v).items()} | E.free(self.v)

    def run(self, name, ns, ftol, niter, threads, restart=None):
        i, t = self.e[name]
        i = E.stages(E.derive(i, return_outputs_even_if_not_converged=True), ns, ftol, niter)
        return self.v.run(i, magnetic_field=t, max_threads=threads, verbose=False, restart_from=restart)


def case_short(c, case):
    """a fixed number of steps: identical up to rounding in every output"""
    _, name, ns, niter, threads = case
    L = len(ns)
    bad, w = [], 0.0
    def go(t, restart=None):
        try:
            return c.run(name, ns, [1e-30] * L if name not in ("x",) else 0, niter, t, restart), None
        except RuntimeError as e:
            return None, str(e)[:200]
    a, ea = go(1)
    fa = E.wout_fields(a.wout) if a is not None else None
    for t in threads:
        b, eb = go(t)
        if (a is None) != (b is None):
            bad.append((t, f"one thread: {ea or 'result'}; {t} threads: {eb or 'result'}"))
        elif a is not None:
            d = diff(a.wout, b.wout, fa)
            w = max(w, d[0])
            if not d[0] < 1e-6:
                bad.append((t, f"{d[1]} differs by {d[0]:.2e} from the single-threaded result"))
            ra, rb = a.wout.restart_reason_timetrace, b.wout.restart_reason_timetrace
            if not np.array_equal(ra, rb):
                bad.append((t, "different restart history"))
    return bad, len(threads) + 1, w


def case_full(c, case):
    """converged runs, thread count changing over restarts"""
    _, name, ns, ftol, threads = case
    bad, w = [], 0.0
    def go(t, ns, restart=None):
        try:
            return c.run(name, ns, [ftol] * len(ns), [5000] * len(ns), t, restart), None
        except RuntimeError as e:
            return None, str(e)[:200]
    a, ea = go(1, ns)
    n = 1
    for t in threads:
        b, eb = go(t, ns)
        n += 1
        if (a is None) != (b is None):
            bad.append((t, f"one thread: {ea or 'result'}; {t} threads: {eb or 'result'}"))
            continue
        if a is None:
            continue
        ca, cb = a.wout.fsqr <= ftol, b.wout.fsqr <= ftol
        if ca != cb:
            bad.append((t, f"converged: {ca} with one thread, {cb} with {t}"))
        if ca and cb:
            d = E.wdiff(a.wout, b.wout, ["rmnc", "zmns", "lmns_full", "iotas", "presf", "volume", "bmnc", "aspect", "wb", "wp", "betatotal", "b0", "phi", "vp"])
            w = max(w, d[0])
            if not d[0] < 2e-4:
                bad.append((t, f"converged {d[1]} differs by {d[0]:.2e} from the single-threaded result"))
            r, er = go(t or 1, ns[-1:], a)
            n += 1
            if r is None:
                bad.append((t, f"restart with {t} threads from a single-threaded result failed: {er}"))
            else:
                d = E.wdiff(a.wout, r.wout, ["rmnc", "zmns", "iotas", "volume", "bmnc", "wb"])
                if not d[0] < (1e-9 if a.input.lfreeb is False else 1000 * ftol ** 0.5):
                    bad.append((t, f"restart with {t} threads: {d[1]} differs by {d[0]:.2e}"))
    return bad, n, w


def case_reject(c, case):
    """thread counts that are not positive"""
    _, name, t = case
    i, tab = c.e[name]
    bad = []
    for kw in ({}, {"return_outputs_even_if_not_converged": True}):
        try:
            c.v.run(E.stages(E.derive(i, **kw), [5], [1e-6], [100]), magnetic_field=tab, max_threads=t, verbose=False)
            bad.append((t, "thread count accepted"))
        except Exception:  # noqa: BLE001
            pass
    return bad, 2, 0.0


def run(c, case):
    return {"short": case_short, "full": case_full, "reject": case_reject}[case[0]](c, case)


def check():
    chk = vlib.Check("S02", "exploration", "equilibria x radial resolutions / stage ladders x thread counts, short and converged runs; partition tables for all (ns, threads) and (points, threads)",
                     ["one schedule per configuration here; all schedules are the subject of S01"])
    vlib.build(["_vmecpp", "x_partition"])
    cs = []
    names = ["sol", "solan", "circ", "udas", "cth", "li", "cma", "ell", "ela", "solf", "cthf", "cthfa", "solfa"]
    for name in names:
        fr = name in ("solf", "cthf", "cthfa", "solfa")
        for ns in (range(3, 17) if TH else range(3, 12)):
            ts = sorted(set(range(2, ns // 2 + 2)) | {16, ns, 8})
            for ni in ([60] if fr else [1, 12]) + ([2, 40] if TH else []):
                cs.append(("short", name, [ns], [ni], ts + ([None] if ni in (12, 60) else [])))
        for lad in ([3, 5, 9], [3, 9], [9, 9], [4, 11], [5, 6, 7, 8]) + (([3, 4, 5, 6, 7], [11, 16], [4, 16]) if TH else ()):
            cs.append(("short", name, list(lad), [20] * len(lad), [2, 3, 4, 5, 9]))
    for name in names:
        f = {"cthfa": 1e-8, "cthf": 1e-8, "solf": 1e-9, "solfa": 1e-9, "cma": 1e-10}.get(name, 1e-11)
        for ns in ([7], [3, 9], [12]) if TH else ([7], [3, 9]):
            cs.append(("full", name, ns, f, [2, 3, 4, 6, None] if TH else [3, 4, None]))
    cs += [("reject", n, t) for n in ("sol", "solf") for t in (0, -1, -2, -2**31)]
    out = vlib.pmap(cs, run, init=Ctx, timeout=200)
    runs, worst = 0, {"short": 0.0, "full": 0.0, "reject": 0.0}
    for cse, r in zip(cs, out):
        tag = ":".join(map(str, cse[:3]))
        if r.kind != "ok":
            chk.fail(f"{r.kind}:{tag}", f"{cse} -> {r}", {"case": repr(cse)})
            continue
        bad, n, w = r.value
        runs += n
        worst[cse[0]] = max(worst[cse[0]], w)
        for _ in range(n):
            chk.seen(cse[:3])
        for t, d in bad:
            chk.fail(f"{tag}:{t}", f"{cse[:4]} threads={t}: {d}", {"case": repr(cse)})
    # partition tables, exhaustively
    x = vlib.load_ext("x_partition")
    nmax, tables = (80 if TH else 40), 0
    for ns in range(3, nmax):
        for n in range(1, ns // 2 + 1):
            for fb in (False, True):
                tables += 1
                own = np.zeros(ns, int)
                last = 0
                for t in range(n):
                    p = x.radial(n, t, ns, fb)
                    own[p["nsMinF"]:p["nsMaxF"]] += 1
                    ok = (p["nsMinF"] == last and p["nsMaxF"] > p["nsMinF"] and p["nsMinF1"] <= p["nsMinF"] and p["nsMaxF1"] >= p["nsMaxF"]
                          and 0 <= p["nsMinF1"] and p["nsMaxF1"] <= ns and p["nsMinF1"] in (0, p["nsMinF"] - 1) and p["nsMaxF1"] in (ns, p["nsMaxF"] + 1))
                    last = p["nsMaxF"]
                    if not ok:
                        chk.fail(f"radial:{ns}:{n}:{fb}", f"worker {t} of {n} on {ns} surfaces: {p}")
                        break
                chk.expect(np.all(own[:ns - (0 if fb else 1)] == 1) and (fb or own[-1] == 0), f"radial-cover:{ns}:{n}:{fb}", f"surfaces are worked on by {own} workers")
                chk.seen(("radial", ns % 7, n % 5, fb))
    for pts in range(1, nmax * 3):
        for n in range(1, pts + 1 if pts < 30 else 30):
            tables += 1
            own = np.zeros(pts, int)
            for t in range(n):
                a, b = x.tangential(pts, n, t)
                if not (0 <= a <= b <= pts):
                    chk.fail(f"points:{pts}:{n}", f"worker {t}: [{a},{b})")
                own[max(a, 0):max(b, 0)] += 1
            chk.expect(np.all(own == 1), f"points-cover:{pts}:{n}", f"grid points are worked on by {own} workers")
            chk.seen(("points", pts % 7, n % 5))
    chk.cov |= {"cases": len(cs), "runs": runs, "partition_tables": tables, "worst_rounding_difference": worst["short"], "worst_converged_difference": worst["full"]}
    return chk


vlib.main(check)
