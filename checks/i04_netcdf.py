import vlib
def run():
    c = vlib.Check("I04", "exploration", "3 file formats x all external types x rank 0..4 x shapes over {1,2,3} plus larger asymmetric ones x all 8 readers, all padded strings up to length 4 (thorough 5), missing/closed/bad ids",
                   ["the netCDF C library stores and returns what it is given", "a mismatching type may be refused or converted exactly"])
    d = vlib.build(["h_netcdf"], "asan")
    with vlib.scratch() as s:
        n = vlib.run_harness(c, d / "h_netcdf", [s, c.tier])
    c.cov.update(n or {})
    return c
vlib.main(run)
