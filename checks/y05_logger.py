import concurrent.futures as cf
import vlib
def run():
    c = vlib.Check("Y05", "model_checking", "all report sequences (3 stages, 8 residual patterns, stage end, 3 run summaries) of length <=4 (5 thorough) in all 4 output modes x both boundary kinds, against a reference display model and terminal emulator",
                   ["terminals implement CR, LF, ESC[nA, ESC[K, SGR", "what is drawn after the final summary is not specified", "summary values fit their columns"])
    d = vlib.build(["h_logger"], "plain" if not c.thorough else "plain")
    da = vlib.build(["h_logger"], "asan")
    P = vlib.NPROC
    depth = 5 if c.thorough else 4
    jobs = [(da, 3, i, P, "asan ") for i in range(P)] + [(d, depth, i, P, "") for i in range(P)]
    tot = {"sequences": 0, "calls": 0}
    with cf.ThreadPoolExecutor(P) as ex:
        for n in ex.map(lambda j: vlib.run_harness(c, j[0] / "h_logger", [j[1], j[2], j[3]], label="", timeout=800), jobs):
            for k in tot:
                tot[k] += int((n or {}).get(k, 0))
    c.cov.update({"states": tot["sequences"], "transitions": tot["calls"], "traces_validated_against_impl": tot["sequences"]})
    c.evaluations = tot["sequences"]
    return c
vlib.main(run)
