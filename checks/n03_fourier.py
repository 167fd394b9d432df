"""N03: grid sizes, mode tables, basis conversions and both transform paths, by enumeration (harness/h_fourier.cc)."""
import concurrent.futures as cf
import vlib


def run():
    c = vlib.Check("N03", "model_checking",
                   "grid sizes: all lasym, nfp in {1,2,5}, mpol<=8, ntor<=6, requested grids up to 30x24; basis tables and conversions (both layouts): mpol<=6, ntor<=4 "
                   "(8, 6 thorough), every unit mode; transforms and constraint filter: mpol<=5, ntor<=3 (6, 4 thorough) on several grids, and every shape that has a fast "
                   "kernel, every unit mode and every single nonzero grid value, all shares of 1-3 threads; against direct evaluation of cosines and sines",
                   ["transforms are linear and act surface by surface (a unit input per surface spans the input space)"])
    d = vlib.build(["h_fourier"])
    P = 4 * vlib.NPROC
    tot = {}
    with cf.ThreadPoolExecutor(vlib.NPROC) as ex:
        for n in ex.map(lambda i: vlib.run_harness(c, d / "h_fourier", [int(c.thorough), i, P], timeout=800 if not c.thorough else 7200), range(P)):
            for k, x in (n or {}).items():
                tot[k] = tot.get(k, 0) + x
    c.cov.update({k: int(tot.get(k, 0)) for k in ("cases", "values_compared", "shapes", "kernels")})
    c.cov.update({"states": int(tot.get("shapes", 0)), "transitions": int(tot.get("cases", 0)), "traces_validated_against_impl": int(tot.get("cases", 0))})
    return c


vlib.main(run)
