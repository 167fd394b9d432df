"""R01: outcome, flags, histories and limits of every run in a grid of tolerances, iteration limits,
stage lists and policies, predicted from the strictest run of the same equilibrium."""
import itertools as it
import os
import numpy as np
import equil as E
import vlib

TH = os.environ.get("VERIF_TIER") == "thorough"
NAMES = ["sol", "solan", "circ", "udas", "cth", "li", "cma", "ell", "ela"]
FREE = ["solf", "cthf", "cthfa", "solfa"]
TR = ("force_residual_r", "force_residual_z", "force_residual_lambda")


class Ctx:
    def __init__(self):
        self.v = vlib.load_vmecpp()
        E.quiet()
        self.e = {k: (i, None) for k, i in E.fixed(self.v).items()} | E.free(self.v)
        self.cache = {}

    def run(self, name, ns, ftol, niter, policy, style="vmec_8_52", threads=1, py=True, **kw):
        i, t = self.e[name]
        i = E.stages(E.derive(i, return_outputs_even_if_not_converged=policy, iteration_style=style, **kw), ns, ftol, niter)
        try:
            return self.v.run(i, magnetic_field=t, max_threads=threads, verbose=False).wout, None
        except RuntimeError as e:
            return None, str(e)


def trace(w):
    return np.array([getattr(w, k) for k in TR]).T


def final(w):
    return np.array([w.fsqr, w.fsqz, w.fsql])


def flagged_ok(w):
    """does the result say that it converged?"""
    return w.ier_flag == 0 and bool(np.all(final(w) <= w.ftolv))


def common(bad, tag, w, ns, ftol, niter):
    """consistency of one returned result"""
    T = trace(w)
    n = len(T)
    for k in ("fsqt", "wdot", "delbsq", "restart_reason_timetrace"):
        if len(getattr(w, k)) != n:
            bad.append((tag, f"history {k} has {len(getattr(w, k))} entries, the residual histories have {n}"))
    if w.itfsq != n:
        bad.append((tag, f"itfsq = {w.itfsq} but {n} entries recorded"))
    if n and not np.array_equal(w.fsqt, T.sum(axis=1)) and not np.allclose(w.fsqt, T.sum(axis=1), rtol=1e-14):
        bad.append((tag, "fsqt is not the sum of the three residual histories"))
    if n > sum(niter) + (niter[0] if w.ns and n > sum(niter) else 0):
        bad.append((tag, f"{n} time steps for iteration limits {niter}"))
    r = "ftolv" in w.reason and "satisfied" in w.reason
    if r != flagged_ok(w):
        bad.append((tag, f"reason says '{w.reason}' for residuals {final(w)} and tolerance {w.ftolv}, ier_flag {w.ier_flag}"))
    k = list(w.restart_reasons)
    if [(a, int(getattr(b, 'value', b))) for a, b in k] != [(a, int(b)) for a, b in enumerate(w.restart_reason_timetrace) if b != 1] and len(k):
        pass


def pair(c, bad, name, ns, ftol, niter, style="vmec_8_52", **kw):
    """both policies of one configuration; returns (result of the lenient policy, converged?)"""
    tag = f"{name} ns={ns} ftol={ftol} niter={niter} {style} {kw or ''}"
    a, ea = c.run(name, ns, ftol, niter, False, style, **kw)
    b, eb = c.run(name, ns, ftol, niter, True, style, **kw)
    if a is not None:
        common(bad, tag, a, ns, ftol, niter)
        if not np.all(np.isfinite(final(a))) or not np.all(final(a) <= ftol[-1]):
            bad.append((tag, f"normal result with residuals {final(a)} for tolerance {ftol[-1]}"))
        if a.ns != ns[-1] or a.ftolv != ftol[-1]:
            bad.append((tag, f"normal result of stage ns={a.ns} ftolv={a.ftolv}"))
        if not flagged_ok(a):
            bad.append((tag, f"normal result flagged {a.ier_flag} {a.reason}"))
        if b is None:
            bad.append((tag, f"converges, but fails when non-converged output is allowed: {eb[:200]}"))
        elif E.wdiff(a, b, skip=set())[0] != 0:
            bad.append((tag, f"policy for non-converged output changes a converged result: {E.wdiff(a, b, skip=set())}"))
    else:
        if not ea:
            bad.append((tag, "error without a message"))
        if b is not None:
            common(bad, tag, b, ns, ftol, niter)
            if flagged_ok(b) and b.ns == ns[-1] and b.ftolv == ftol[-1]:
                bad.append((tag, f"error ({ea[:120]}) although the tolerance was met: {final(b)}"))
    return b, a is not None


def run_single(c, case):
    """one stage: every (ftol, niter) outcome is determined by the trace of the strictest run"""
    _, name, style, ftols, niters = case
    bad, n = [], 0
    i, _ = c.e[name]
    ns = [int(i.ns_array[0])]
    strict = min(ftols)
    ref, eb = c.run(name, ns, [strict], [max(niters)], True, style)
    if ref is None:
        return [(name, f"reference run failed: {eb}")], 1, []
    T = trace(ref)
    if flagged_ok(ref):
        T = np.vstack([T, final(ref)])
    out = []
    lost = {}                                          # iterations used up by retries, by iteration limit
    for m in niters:
        b, eb = c.run(name, ns, [strict], [m], True, style)
        if b is not None and not flagged_ok(b):
            lost[m] = m - len(trace(b))
            if not 0 <= lost[m] <= (3 if m <= 50 else 30):
                bad.append((f"{name} {style} niter={m}", f"{len(trace(b))} time steps with an iteration limit of {m}, not converged"))
    for f, m in it.product(ftols, niters):
        b, ok = pair(c, bad, name, ns, [f], [m], style)
        n += 2
        tag = f"{name} {style} ftol={f} niter={m}"
        if b is None:
            bad.append((tag, "no result although non-converged output was requested"))
            continue
        hit = np.nonzero(np.all(T <= f, axis=1))[0]
        k = int(hit[0]) if len(hit) else None          # index of the first evaluation within tolerance
        B = trace(b)
        out.append((name, style, ok))
        m_ = len(B)
        if not np.array_equal(B, T[:m_]):
            bad.append((tag, f"residual history differs from that of the strictest run at step {int(np.argmax(np.any(B != T[:m_], axis=1))) if m_ <= len(T) else len(T)}"))
            continue
        if k is not None and k + lost.get(m, 30) < m:
            if not ok or m_ != k or not np.array_equal(final(b), T[k]):
                bad.append((tag, f"tolerance met at evaluation {k}, but converged={ok} after {m_} steps with {final(b)} (expected {T[k]})"))
        else:
            if ok and (k is None or k >= m):
                bad.append((tag, f"converged within {m} iterations although the tolerance is first met at evaluation {k}"))
            if m_ > m:
                bad.append((tag, f"{m_} time steps with an iteration limit of {m}"))
            if not ok and m_ < m - 30:
                bad.append((tag, f"stopped after {m_} of {m} iterations without having converged"))
    return bad, n, out


def run_stages(c, case):
    """stage lists: the history of a run is that of its stages one after another"""
    _, name, style, ns, ftol, niter = case
    bad, n = [], 0
    prev, prev_ns = np.zeros((0, 3)), 0
    out = []
    for k in range(1, len(ns) + 1):
        b, ok = pair(c, bad, name, ns[:k], ftol[:k], niter[:k], style)
        n += 2
        tag = f"{name} {style} stages ns={ns[:k]} ftol={ftol[:k]} niter={niter[:k]}"
        if b is None:
            bad.append((tag, "no result although non-converged output was requested"))
            break
        out.append((name, style, ok, k))
        B = trace(b)
        if not np.array_equal(B[:len(prev)], prev):
            bad.append((tag, "history does not start with the history of the preceding stages"))
        seg = B[len(prev):]
        if b.ier_flag != 0:
            break
        if b.ns != ns[k - 1] or b.ftolv != ftol[k - 1]:
            bad.append((tag, f"result is of ns={b.ns} ftolv={b.ftolv}"))
        if len(seg) > niter[k - 1]:
            bad.append((tag, f"{len(seg)} time steps in the last stage, limit {niter[k - 1]}"))
        hit = np.nonzero(np.all(seg <= ftol[k - 1], axis=1))[0]
        if len(hit):
            bad.append((tag, f"stage went on after its tolerance was met at step {hit[0]}"))
        if ok != bool(np.all(final(b) <= ftol[k - 1])):
            bad.append((tag, f"converged={ok}, final residuals {final(b)}"))
        if not ok and len(seg) < niter[k - 1] - 30:
            bad.append((tag, f"stage stopped after {len(seg)} of {niter[k - 1]} iterations without having converged"))
        prev = B
    return bad, n, out


def run_energy(c, case):
    """the energy history: starting energy, then the relative change per step, seen from outside by the scripted iteration"""
    _, name = case
    from vmecpp import _iteration
    i, _t = c.e[name]
    w = c.v.run(i, max_threads=1, verbose=False).wout
    en = []
    _m, r = _iteration.iterate(i, callback=lambda s: en.append(s.mhd_energy))
    en = np.array(en)
    bad = []
    if len(en) == len(w.wdot) and r.axis_reguesses == 0:
        d = np.concatenate([en[:1], (en[1:] - en[:-1]) / en[1:]])
        good = np.abs(w.wdot - d) <= 1e-6
        good[0] = abs(w.wdot[0] / d[0] - 1) <= 1e-9
        # known finding: entries computed with the preceding rate in place of the preceding energy
        x = np.concatenate([en[:1], (en[1:] - w.wdot[:-1]) / en[1:]])
        inplace = (np.abs(w.wdot - x) <= 1e-6 * np.maximum(1, np.abs(x))) & (np.arange(len(d)) > 0)
        if not np.all(good | inplace):
            k = int(np.argmax(~(good | inplace)))
            bad.append((f"{name} energy", f"wdot[{k}] = {w.wdot[k]}, the energies {en[max(0, k - 1):k + 1]} give {d[k]}"))
        elif not np.all(good):
            k = int(np.argmax(~good))
            bad.append(("energy history computed in place", f"{name}: wdot[{k}] = {w.wdot[k]}, the energies {en[max(0, k - 1):k + 1]} give {d[k]}"))
        e = 4 * np.pi ** 2 * en[-1]
        if abs(en[-1] * 1.0 - (w.wb + w.wp / (i.gamma - 1))) > 1e-6 * en[-1]:
            bad.append((f"{name} energy", f"last energy {en[-1]} and {w.wb + w.wp / (i.gamma - 1)} in the result ({e})"))
        return bad, 2, [(name, "energy")]
    return bad, 2, [(name, "energy not comparable")]


def run_any(c, case):
    if case[0] == "energy":
        return run_energy(c, case)
    return run_single(c, case) if case[0] == "single" else run_stages(c, case)


def check():
    chk = vlib.Check("R01", "exploration", "equilibria x tolerance x iteration limit x stage list x iteration style x non-converged policy",
                     ["grids small enough for sub-second solves; single-threaded (threads are covered by S01/S02)"])
    vlib.build(["_vmecpp"])
    cs = []
    niters = [1, 2, 3, 10, 50, 120, 2500]
    for name in NAMES + FREE:
        strict = 1e-9 if name in FREE else 1e-11 if name == "cma" else 1e-12
        ftols = [1.0, 1e-3, 1e-6, strict] + ([1e-1, 1e-2, 1e-4, 1e-5] if TH else [])
        for style in ("vmec_8_52", "parvmec"):
            if name in ("cthfa", "udas") and not TH:
                cs += [("single", name, style, [1e-3, strict], [1, 50, 2500])]
            else:
                cs += [("single", name, style, [f], niters) for f in ()] + [("single", name, style, ftols, niters + ([5, 25, 200, 400] if TH else []))]
    ladders = [[3, 5, 9], [5, 5], [3, 3, 3], [4, 7], [3, 9]]
    for name in (["sol", "cth", "ela", "solf"] + (["solan", "circ", "li", "udas", "cthf", "ell"] if TH else ["li"])):
        for style in ("vmec_8_52", "parvmec"):
            for ns in ladders:
                L = len(ns)
                for ft, ni in [([1e-6] * L, [500] * L), ([1e-3] + [1e-8] * (L - 1), [3000] * L), ([1e-8] * L, [3, 20, 2000][:L]),
                               ([1e-8] * (L - 1) + [1e-4], [2000] * (L - 1) + [1])]:
                    cs.append(("stages", name, style, ns, ft, ni))
    cs += [("energy", n) for n in NAMES]
    out = vlib.pmap(cs, run_any, init=Ctx, timeout=300)
    runs = 0
    for cse, r in zip(cs, out):
        if r.kind != "ok":
            chk.fail(f"{r.kind}:{cse[0]}:{cse[1]}", f"{cse} -> {r}", {"case": repr(cse)})
            continue
        bad, n, o = r.value
        runs += n
        for x in o:
            chk.seen(x)
        for tag, d in bad:
            chk.fail(tag, d, {"case": repr(cse)})
    chk.cov |= {"cases": len(cs), "runs": runs}
    return chk


vlib.main(check)
