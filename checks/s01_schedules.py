"""S01: every thread schedule of a solve terminates with the same answer.
The real solver runs under a controlled OpenMP runtime (harness/vsched.cc); all schedules that differ from a
base schedule in at most d scheduling decisions are executed, each checked for data races, deadlock, livelock
and against the single-threaded result."""
import re
import shutil
import subprocess
import tempfile
import pathlib
import numpy as np
import vlib
import equil as E


def write_case(v, d, name, inp, tab=None, restart=None):
    inp = E.derive(inp, return_outputs_even_if_not_converged=inp.return_outputs_even_if_not_converged)
    (d / (name + ".json")).write_text(inp.model_dump_json())
    t = "-"
    if tab is not None:
        t = d / (name + ".tab")
        p = tab.parameters
        with open(t, "wb") as f:
            np.array([p.number_of_field_periods, p.r_grid_minimum, p.r_grid_maximum, p.number_of_r_grid_points, p.z_grid_minimum,
                      p.z_grid_maximum, p.number_of_z_grid_points, p.number_of_phi_grid_points, len(tab.b_r)], float).tofile(f)
            for x in (tab.b_r, tab.b_p, tab.b_z):
                np.ascontiguousarray(x, float).tofile(f)
    r = "-"
    if restart is not None:
        r = d / (name + ".restart.json")
        r.write_text(restart.model_dump_json())
    return str(d / (name + ".json")), str(t), str(r)


def cases(v, thorough):
    """(name, input, table, restart input, threads, deviations, bases, interrupt call)"""
    K = dict(return_outputs_even_if_not_converged=True)
    fx, fr = E.fixed(v), E.free(v)
    out = []

    def add(name, i, threads, dev, bases="012", tab=None, restart=None, intr=0):
        out.append((name, i, tab, restart, threads, dev, bases, intr))
    one = lambda k, ns, it, **kw: E.one(fx[k], ns, 1e-30, it, **(K | kw))   # noqa: E731
    D = 1
    # first iterations of every kind of plasma, all single deviations
    add("sol2", one("sol", 6, 3), 2, D)
    add("sol3", one("sol", 8, 3), 3, D)
    add("solan2", one("solan", 6, 3), 2, D)
    add("udas2", one("udas", 6, 3), 2, D)
    add("cth2", one("cth", 6, 3), 2, D)
    add("li2", one("li", 6, 2), 2, D)
    add("ela2", one("ela", 6, 2), 2, D)
    add("ela3", one("ela", 8, 2), 3, D if thorough else 0)
    # two deviations on the smallest run
    add("sol2dd", one("sol", 5, 1), 2, 2, "0")
    # control paths: progress reports, convergence, failing runs, axis re-guess, time step cuts, escalation, stages
    add("conv2", E.one(fx["sol"], 6, 3e-2, 60, nstep=2), 2, D)
    add("nonconv2", E.one(fx["sol"], 6, 1e-30, 3), 2, D)
    add("badjac2", E.one(fx["udas"], 6, 1e-12, 10, raxis_c=fx["udas"].raxis_c * 1.08), 2, D)
    add("badjac2k", one("cma", 6, 3), 2, D)
    add("huge2", one("ell", 6, 9, raxis_c=fx["ell"].raxis_c * 1.08), 2, D if thorough else 0)
    add("huge3", one("ell", 8, 9, raxis_c=fx["ell"].raxis_c * 1.08), 3, 0)
    add("cut2", one("sol", 6, 9, delt=5.0), 2, D)
    add("cut3", one("sol", 8, 9, delt=5.0), 3, 0)
    add("cutp2", one("sol", 6, 9, delt=5.0, iteration_style="parvmec"), 2, D)
    add("jac75", one("sol", 6, 150, delt=5.0, iteration_style="parvmec"), 2, 0)
    add("jac75a", one("udas", 8, 150, delt=5.0, iteration_style="parvmec"), 3, 0)
    add("progress2", one("li", 6, 60, delt=0.05), 2, 0)
    add("stages2", E.derive(E.stages(fx["sol"], [4, 7], [1e-2, 1e-3], [30, 12]), **K), 2, D if thorough else 0)
    add("stages3", E.derive(E.stages(fx["ela"], [4, 8], [1e-2, 1e-3], [30, 12]), **K), 3, 0)
    add("intr2", one("sol", 6, 20, nstep=2), 2, D, intr=3)
    add("intr3", one("sol", 8, 20, nstep=2), 3, 0, intr=2)
    # complete solves, base schedules
    for k in ("sol", "udas", "cth", "ela"):
        add(k + "full", E.one(fx[k], 8, 1e-8, 1000), 3, 0)
    # free boundary: restarted from a solution so that the vacuum field is on from the start
    for k, (i, t) in fr.items():
        r = E.derive(i)
        ns = int(i.ns_array[-1])
        cur = i.extcur * 1.001
        for n, dev in ((2, D if thorough or k == "solf" else 0), (3, 0)):
            for skip in (1, 3) if n == 2 else (2,):
                add(f"{k}{n}s{skip}", E.one(i, ns, 1e-30, 3 if dev else 7, nvacskip=skip, extcur=cur, **K), n, dev, tab=t, restart=r)
        add(f"{k}on", E.one(i, ns, 1e-30, 70, **K), 3, 0, tab=t)            # vacuum field switched on during the run
    i, t = fr["solf"]
    add("freestages", E.derive(E.stages(i, [5, 9], [1e-4, 1e-5], [300, 20]), **K), 3, 0, tab=t)
    add("onlycoils", E.one(i, 9, 1e-30, 40, free_boundary_method="only_coils", pres_scale=0.0, curtor=0.0, **K), 3, 0, tab=t)
    if thorough:
        add("sol2dd6", one("sol", 6, 2), 2, 2, "01")
        add("sol3dd", one("sol", 8, 1), 3, 2, "0")
        add("ela2dd", one("ela", 5, 1), 2, 2, "0")
        add("sol4", one("sol", 10, 3), 4, D)
        add("solf3d", E.one(i, 9, 1e-30, 4, nvacskip=1, extcur=i.extcur * 1.001, **K), 3, D, tab=t, restart=E.derive(i))
    return out


def symbolize(exe, text):
    pcs = re.findall(r"0x[0-9a-f]+", text)
    if not pcs:
        return text
    r = subprocess.run(["addr2line", "-f", "-C", "-s", "-e", str(exe), *[hex(int(p, 16) - 1) for p in pcs]], capture_output=True, text=True)
    ln = r.stdout.splitlines()
    return text + " | " + " <- ".join(f"{ln[2 * k].split('(')[0]} {ln[2 * k + 1]}" for k in range(len(ln) // 2))


def run():
    c = vlib.Check("S01", "model_checking",
                   "real solver under a controlled OpenMP runtime: every schedule that deviates from three base schedules (lowest thread first, highest "
                   "first, round robin) in at most d scheduling decisions (d=1 on short runs, d=2 on the shortest, d=0 on complete runs), 2 and 3 threads; "
                   "all instrumented memory accesses of every schedule checked for happens-before races",
                   ["threads interact only through OpenMP constructs, atomics and instrumented memory (LAPACK and the C++ runtime libraries are not instrumented)",
                    "scheduling decisions are taken at synchronisation operations; between them a race-free program cannot observe others",
                    "OpenMP semantics as implemented in harness/vsched.cc"])
    vlib.build(["_vmecpp"])
    exe = vlib.build(["s_solve"], "sched") / "s_solve"
    v = vlib.load_vmecpp()
    E.quiet()
    d = pathlib.Path(tempfile.mkdtemp())
    tot = {}
    try:
        for name, i, tab, restart, n, dev, bases, intr in cases(v, c.thorough):
            f, t, r = write_case(v, d, name, i, tab, restart)
            nv = len(c.violations)
            nums = vlib.run_harness(c, exe, [f, t, n, dev, bases, 400000, vlib.NPROC, name, r, intr], label="", timeout=800 if not c.thorough else 7200) or {}
            for x in c.violations[nv:]:
                x["detail"] = symbolize(exe, x["detail"])
                x["replay"] = {"case": name, "input": f, **(x["replay"] or {}), "json": i.model_dump_json()}
            for k in ("schedules", "scheduling_points", "accesses_checked", "sync_operations"):
                tot[k] = tot.get(k, 0) + int(nums.get(k, 0))
            vlib.log(name, {k: nums.get(k) for k in ("schedules", "single_status", "history", "worst", "complete")})
            c.sample(f"{name}: {nums}")
            if nums.get("complete") == 0:
                c.exhaustive = False
            if len(c.violations) > 12:
                break
    finally:
        shutil.rmtree(d, ignore_errors=True)
    c.cov.update(tot)
    c.cov.update({"states": tot.get("scheduling_points", 0), "transitions": tot.get("sync_operations", 0), "traces_validated_against_impl": tot.get("schedules", 0)})
    return c


vlib.main(run)
