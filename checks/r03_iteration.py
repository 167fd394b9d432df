"""R03: the scripted iteration, driven by a stand-in force model through all answer sequences up
to a depth, against an independently written automaton of the documented control; and on real
equilibria against the native solver's history."""
import itertools as it
import math
import os
import numpy as np
import equil as E
import vlib

TH = os.environ.get("VERIF_TIER") == "thorough"
FTOL = 1e-9
STYLES = ("vmec_8_52", "parvmec", "robust")

# letter -> (repetitions, factor of the invariant, factor of the preconditioned residuals, reason, special)
L = {
    "down": (1, .5, .5, 1, ""), "down12": (12, .8, .8, 1, ""), "flat": (1, 1, 1, 1, ""), "flat14": (14, 1, 1, 1, ""), "flat42": (42, .99, .99, 1, ""),
    "up": (1, 3, 3, 1, ""), "p99": (1, 1, 99, 1, ""), "p101": (1, 1, 101, 1, ""), "p990": (1, 1, 990, 1, ""), "p1010": (1, 1, 1010, 1, ""),
    "p9900": (1, 1, 9900, 1, ""), "p10100": (1, 1, 10100, 1, ""), "i990": (1, 990, 1, 1, ""), "i1010": (1, 1010, 1, 1, ""), "i10100": (1, 10100, 1, 1, ""),
    "bad": (1, 1, 1, 2, ""), "bad24": (24, 1, 1, 2, ""), "bad49": (49, 1, 1, 2, ""), "huge": (1, 1, 1, 4, ""),
    "nan0": (1, 1, 1, 1, "nan0"), "nan2": (1, 1, 1, 1, "nan2"), "inf1": (1, 1, 1, 1, "inf1"), "badnan": (1, 1, 1, 2, "nan1"),
    "pzero": (1, 1, 0, 1, ""), "small": (1, 1, 1, 1, "small"), "conv": (1, 1, 1, 1, "conv"), "conv01": (1, 1, 1, 1, "conv01"), "conv12": (1, 1, 1, 1, "conv12"),
    "conv02": (1, 1, 1, 1, "conv02"), "badconv": (1, 1, 1, 2, "conv"), "hugeconv": (1, 1, 1, 4, "conv"),
}
CORE = ["down12", "flat14", "flat42", "up", "p101", "p10100", "i1010", "i10100", "bad", "bad24", "huge", "nan0", "conv", "conv01"]


def answers(seq, tail, f0):
    """the evaluations (fsqr, fsqz, fsql, f1r, f1z, f1l, reason) of a letter sequence"""
    out = []
    a, b = f0, f0
    for k in seq:
        n, fa, fb, rr, sp = L[k]
        for _ in range(n):
            a *= fa
            b *= fb
            x = [a * .5, a * .3, a * .2]
            if sp == "small":
                a = 5e-3
                x = [a * .5, a * .3, a * .2]
            if sp.startswith("conv"):
                w = [int(q) for q in sp[4:]] or [0, 1, 2]
                x = [FTOL if q in w else max(z, 2e-9) for q, z in enumerate(x)]
            if sp.startswith("nan"):
                x[int(sp[3:])] = math.nan
            if sp.startswith("inf"):
                x[int(sp[3:])] = math.inf
            out.append((*x, b * .2, b * .3, b * .5, rr))
            if b == 0:
                b = a
    if tail == "conv":
        out.append((FTOL, FTOL, FTOL, b * .2, b * .3, b * .5, 1))
    return out


class Fake:
    """stand-in for the force model; records what is asked of it"""
    mhd_energy = 1.25

    def __init__(self, seq, tail, niterv, ns, delt, style, f0):
        self.ans, self.pos = answers(seq, tail, f0), 0
        self.ftolv, self.niterv, self.ns, self.delt, self.iteration_style = FTOL, niterv, ns, delt, style
        self.ops = []
        self.restart_reason = 1

    def evaluate(self, iter1, iter2, precondition=True, always_fix_m1_gauge=False):
        if self.pos >= self.niterv * 2 + 50:
            raise RuntimeError("iteration limit not respected")
        x = self.ans[min(self.pos, len(self.ans) - 1)]
        self.pos += 1
        self.fsqr, self.fsqz, self.fsql, self.fsqr1, self.fsqz1, self.fsql1, self.restart_reason = x
        self.ops.append(("evaluate", iter1, iter2, bool(precondition), bool(always_fix_m1_gauge)))
        return False

    def perform_time_step(self, fac, b1, dt):
        self.ops.append(("step", fac, b1, dt))

    def save_backup(self):
        self.ops.append(("save",))

    def restore_backup(self):
        self.ops.append(("restore",))

    def reinitialize(self):
        self.ops.append(("reinitialize",))


def reference(m, style):
    """the documented control as an automaton over (iteration counters, time step, resets, running minima)"""
    ops, states = [], []
    it1 = it2 = 1
    dt, ij = m.delt, 0
    hist = [0.0] * 10
    last = 1.0
    r0 = r1 = -1.0
    rec, rrs = [], []
    conv = fail = False
    nre = ngu = 0
    pos = 0
    pend = None
    x = (math.nan,) * 7
    tries = 0
    again = True
    while again and tries < m.niterv:
        again = False
        tries += 1
        if pend == "reguess":
            ops += [("reinitialize",), ("save",)]
        pend = None
        lost, k = 0, it2
        while k <= m.niterv:
            it2 = k - lost
            x = m.ans[min(pos, len(m.ans) - 1)]
            pos += 1
            ops.append(("evaluate", it1, it2, True, False))
            f, p, rr = x[:3], x[3] + x[4] + x[5], x[6]
            fin = all(math.isfinite(q) for q in f)
            broken = not fin or (it2 == 1 and rr == 2)
            if not broken and max(f) <= m.ftolv:
                conv = True
                break
            if not broken:
                if it2 == it1:
                    hist = [.15 / dt] * 10
                v = hist[-1]
                if it2 > it1 and p != 0:
                    v = min(abs(math.log(p / last)) if last != 0 else math.inf, .15) / dt
                hist = hist[1:] + [v]
                last = p
                rec.append(f)
                rrs.append(rr)
                tau = dt * (sum(hist) / 10) / 2
                ops.append(("step", 1 / (1 + tau), 1 - tau, dt))
            if ij == 0 and (broken or rr == 4) and m.ns >= 3:
                ij = 1
                ngu += 1
                pend = "reguess"
                again = True
                break
            if broken:
                fail = True
                break
            if ij in (25, 50):
                ops.append(("restore",))
                nre += 1
                ij += 1
                it1 = it2
                dt = (.98 if ij < 50 else .96) * m.delt
                again = True
                break
            if ij >= 75:
                fail = True
                break
            s = f[0] + f[1] + f[2]
            if it2 == it1 or r0 == -1:
                r0, r1 = p, s
            r0, r1 = min(r0, p), min(r1, s)
            since = it2 - it1
            slow = since > 12 and it2 > 50 and f[0] + f[1] > 1e-2
            if rr == 4:
                act = "hold"
            elif style == "vmec_8_52":
                act = "store" if p <= r0 and since > 10 else "bad" if p > 100 * r0 and since > 0 else "slow" if slow else ""
            else:
                lim = 1e4 if style == "parvmec" else 1e3
                act = "store" if p <= r0 and s <= r1 else "slow" if since > 10 and (p > lim * r0 or s > lim * r1) or (style == "robust" and slow) else ""
            saved = reverted = False
            if act == "hold":
                ops.append(("save",))
                saved = True
                it1, lost = it2, lost + 1
            elif act == "bad" or (rr == 2 and act != "slow"):
                ops.append(("restore",))
                reverted = True
                nre += 1
                ij += 1
                dt *= .9
                it1 = it2
                lost += act != "store"
            elif act == "slow":
                ops.append(("restore",))
                reverted = True
                nre += 1
                dt /= 1.03
                it1, lost = it2, lost + 1
            elif act == "store":
                ops.append(("save",))
                saved = True
            states.append((len(rec), it1, it2, dt, ij, nre, ngu, reverted, saved, r0, s, p, rr))
            k += 1
    return ops, states, dict(converged=conv, failed=fail, num_iterations=len(rec), restarts=nre, axis_reguesses=ngu, fsqr=x[0], fsqz=x[1], fsql=x[2],
                             force_residual_r=[q[0] for q in rec], force_residual_z=[q[1] for q in rec], force_residual_lambda=[q[2] for q in rec], restart_reasons=rrs, iteration_style=style)


def same(a, b):
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) or isinstance(b, float):
        return a == b or (a != a and b != b) or abs(a - b) <= 1e-11 * max(abs(a), abs(b))
    return a == b


def one_fake(I, seq, tail, niterv, ns, delt, style, f0, asdefault, bad):
    tag = f"fake:{style}"
    rep = f"{style} answers={list(seq)} then {tail} niterv={niterv} ns={ns} delt={delt} start={f0}"
    m = Fake(seq, tail, niterv, ns, delt, style if asdefault else "vmec_8_52", f0)
    ops, states, res = reference(Fake(seq, tail, niterv, ns, delt, style, f0), style)
    got = []
    try:
        r = I.solve_equilibrium(m, style=None if asdefault else style, callback=got.append)
    except ZeroDivisionError:
        return
    except ValueError as e:
        if "math domain" in str(e) or "expected a positive input" in str(e):
            return
        bad.append((tag, f"{rep}: {type(e).__name__} {e}"))
        return
    except Exception as e:  # noqa: BLE001
        bad.append((tag, f"{rep}: {type(e).__name__} {e}"))
        return
    # the guarantees, directly
    f = (r.fsqr, r.fsqz, r.fsql)
    within = all(math.isfinite(q) and q <= FTOL for q in f)
    if r.converged and not within:
        bad.append((tag, f"{rep}: converged with residuals {f}"))
    if m.pos > niterv + 60 or r.num_iterations > niterv + 60:
        bad.append((tag, f"{rep}: {m.pos} evaluations"))
    if sum(o[0] == "reinitialize" for o in m.ops) > 1 or r.axis_reguesses > 1:
        bad.append((tag, f"{rep}: axis re-guessed more than once"))
    # the automaton
    if not same(m.ops, ops):
        k = next((k for k, (a, b) in enumerate(zip(m.ops, ops)) if not same(a, b)), min(len(ops), len(m.ops)))
        bad.append((tag, f"{rep}: operation {k} is {m.ops[k:k + 2]}, documented control gives {ops[k:k + 2]} (after {m.ops[max(0, k - 3):k]})"))
        return
    for k, v in res.items():
        if not same(getattr(r, k), v):
            bad.append((tag, f"{rep}: result {k} = {str(getattr(r, k))[:200]}, expected {str(v)[:200]}"))
            return
    g = [(s.iteration, s.iter1, s.iter2, s.delt, s.ijacob, s.n_restarts, s.n_reguesses, s.restarted, s.saved_backup, s.res0, s.fsq_invariant, s.fsq_preconditioned, s.restart_reason) for s in got]
    if not same(g, states):
        k = next((k for k, (a, b) in enumerate(zip(g, states)) if not same(a, b)), min(len(g), len(states)))
        bad.append((tag, f"{rep}: snapshot {k} is {g[k:k + 1]}, expected {states[k:k + 1]}"))


class Ctx:
    def __init__(self):
        self.v = vlib.load_vmecpp()
        E.quiet()
        from vmecpp import _iteration
        from vmecpp.cpp import _vmecpp
        self.I, self.X = _iteration, _vmecpp
        self.e = E.fixed(self.v)


def run_fake(c, case):
    _, style, seqs, tail, niterv, ns, f0, dflt = case
    bad, out = [], {}
    n = 0
    for s in seqs:
        one_fake(c.I, s, tail, niterv, ns, .9, style, f0, dflt, bad)
        n += 1
        if len(bad) > 5:
            break
    return bad, n, 0, 0


def compare(bad, tag, A, ra, B, rb, end_a, end_b):
    """histories agree up to rounding that the iteration amplifies gradually"""
    n = min(len(A), len(B))
    sc = np.maximum(A[:n].sum(axis=1), 1e-300)
    d = np.max(np.abs(A[:n] - B[:n]), axis=1) / sc if n else np.zeros(0)
    top = 1e-12
    for k in range(n):
        if d[k] > 1e-6:
            if d[k] > 1e5 * top or k < 20:
                bad.append((tag, f"native and scripted histories part at step {k}: {A[k]} and {B[k]} (difference before: {top:.1e})"))
            return k
        top = max(top, d[k])
    if len(A) != len(B) or list(ra) != list(rb):
        bad.append((tag, f"native takes {len(A)} steps, scripted {len(B)}; restart reasons equal: {list(ra) == list(rb)}"))
    elif end_a != end_b:
        bad.append((tag, f"native converged={end_a}, scripted {end_b}"))
    return n


def run_real(c, case):
    _, name, style, delt, ns, niter = case
    bad = []
    i = E.stages(E.derive(c.e[name], delt=delt, iteration_style=style, return_outputs_even_if_not_converged=True), ns, [1e-10] * len(ns), [niter] * len(ns))
    tag = f"real:{name}:{style}"
    what = f"delt={delt} ns={ns} niter={niter}"
    w = c.v.run(i, max_threads=1, verbose=False).wout
    A = np.array([w.force_residual_r, w.force_residual_z, w.force_residual_lambda]).T
    ra = [int(x) for x in w.restart_reason_timetrace]
    okA = w.ier_flag == 0 and max(w.fsqr, w.fsqz, w.fsql) <= 1e-10
    if len(ns) == 1:
        m, r = c.I.iterate(i)
        rs = [r]
    else:
        m, rs = c.I.solve_multigrid(i)
    B = np.array([sum((r.force_residual_r for r in rs), []), sum((r.force_residual_z for r in rs), []), sum((r.force_residual_lambda for r in rs), [])]).T
    rb = sum((r.restart_reasons for r in rs), [])
    n = compare(bad, tag, A, ra, B, rb, bool(okA), bool(rs[-1].converged))
    if len(ns) == 1:
        M = c.X.VmecModel.create(i._to_cpp_vmecindata(), ns[0])
        try:
            M.solve()
            C = np.array([M.force_residual_r, M.force_residual_z, M.force_residual_lambda]).T
            if not np.array_equal(A, C):
                bad.append((tag, "single-resolution native solve differs from the run"))
        except RuntimeError:
            if okA:
                bad.append((tag, "single-resolution native solve fails where the run converges"))
    if rs[-1].converged:
        g = [m.fsqr, m.fsqz, m.fsql]
        if not (np.all(np.isfinite(g)) and max(g) <= 1e-10):
            bad.append((tag, f"converged with residuals {g}"))
    return [(t, f"{what}: {x}") for t, x in bad], 1, n, sum(r.restarts for r in rs)


def run_any(c, case):
    return run_fake(c, case) if case[0] == "fake" else run_real(c, case)


def chunks(x, n):
    x = list(x)
    return [x[k:k + n] for k in range(0, len(x), n)]


def check():
    c = vlib.Check("R03", "model_checking", "all sequences of force-model answers up to the depth over the answer alphabet x style x start level x iteration limit; "
                   "real equilibria x time step x grid x style against the native solver",
                   ["answers of the stand-in model take the values of the alphabet; rounding differences between the two loops may be amplified gradually"])
    vlib.build(["_vmecpp"])
    cs = []
    letters = list(L)
    for st in STYLES:
        for d in (1, 2):
            for tail, nit, ns, f0 in it.product(("conv", "flat"), (7, 60, 160), (2, 3, 11), (1.0, 1e-3)):
                if d == 2 and (ns == 11 or nit == 7) and not TH:
                    continue
                cs += [("fake", st, q, tail, nit, ns, f0, d == 1) for q in chunks(it.product(letters, repeat=d), 400)]
        for f0 in (1.0, 1e-3):
            cs += [("fake", st, q, "conv", 400, 3, f0, False) for q in chunks(it.product(CORE if not TH else letters, repeat=3), 400)]
            cs += [("fake", st, [("down", *s) for s in q], "conv", 400, 3, f0, False) for q in chunks(it.product(CORE if not TH else letters, repeat=3), 400)]
            cs += [("fake", st, q, "conv", 400, 3, f0, True) for q in chunks(it.product(CORE[:11] if TH else ["down12", "flat42", "p101", "i10100", "bad", "bad24", "huge"], repeat=4), 400)]
    reals = []
    delts = (.5, .9, 1.1, 1.3, 1.7, 2.5, 3, 5) + ((.7, 1.2, 1.5, 2, 4, 6) if TH else ())
    for name in ("sol", "solan", "circ", "udas", "cth", "li", "cma", "ell", "ela"):
        for st in ("vmec_8_52", "parvmec"):
            reals += [("real", name, st, d, ns, 300 if not TH else 800) for d in delts for ns in ([5], [11]) + (([3], [8]) if TH else ())]
            reals += [("real", name, st, d, ns, 200) for d in (.9, 2.5) for ns in ([3, 5, 9], [4, 7, 11])]
    for name in ("sol", "cth", "ela"):
        reals += [("real", name, "vmec_8_52", .9, [5], n) for n in range(1, 31)]
    cs = reals + cs
    out = vlib.pmap(cs, run_any, init=Ctx, timeout=240)
    nseq = nreal = steps = restarts = 0
    for cse, r in zip(cs, out):
        if r.kind != "ok":
            c.fail(f"{r.kind}:{cse[0]}:{cse[1]}", f"{str(cse)[:300]} -> {r}", {"case": repr(cse)[:500]})
            continue
        bad, n, s, rs = r.value
        if cse[0] == "fake":
            nseq += n
        else:
            nreal += n
            steps += s
            restarts += rs
        c.seen((cse[0], cse[1], cse[2] if cse[0] == "real" else len(cse[2][0])))
        for t, d in bad:
            c.fail(t, d, {"case": repr(cse)[:2000]})
    c.cov |= {"states": nseq, "transitions": steps, "answer_sequences": nseq, "real_runs": nreal, "native_steps_compared": steps, "restarts_in_real_runs": restarts, "traces_validated_against_impl": nseq + nreal}
    return c


vlib.main(check)
