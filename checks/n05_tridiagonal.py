import concurrent.futures as cf
import vlib


def run():
    c = vlib.Check("N05", "model_checking",
                   "serial solver: all sizes, first and last rows, strides and numbers of right-hand sides; parallel solver: all partitions of the radial grid "
                   "into up to 5 workers x all first rows (ASan/UBSan), and all schedules within 1 (2 thorough) deviations of three base schedules under the "
                   "controlled runtime; against elimination with pivoting in extended precision",
                   ["diagonally dominant systems (the solver does not pivot)", "mutexes and barriers as implemented in harness/vsched.cc"])
    da = vlib.build(["h_tri"], "asan")
    ds = vlib.build(["s_tri"], "sched")
    P = vlib.NPROC
    ns, nss, w, dep = (9, 7, 4, 1) if c.thorough else (7, 5, 3, 1)
    jobs = [(da / "h_tri", [ns, i, P]) for i in range(P)] + [(ds / "s_tri", [nss, w, dep, i, P]) for i in range(P)]
    jobs += [(ds / "s_tri", [4 if c.thorough else 3, 3, 2, i, P]) for i in range(P)]
    tot = {}
    with cf.ThreadPoolExecutor(P) as ex:
        for n in ex.map(lambda j: vlib.run_harness(c, j[0], j[1], timeout=700 if not c.thorough else 7000), jobs):
            for k, x in (n or {}).items():
                tot[k] = tot.get(k, 0) + x
    c.cov.update({k: int(tot.get(k, 0)) for k in ("cases", "systems", "schedules", "scheduling_points", "sync_operations", "accesses_checked")})
    c.cov.update({"states": int(tot.get("scheduling_points", 0)), "transitions": int(tot.get("sync_operations", 0)), "traces_validated_against_impl": int(tot.get("schedules", 0) + tot.get("cases", 0))})
    return c


vlib.main(run)
