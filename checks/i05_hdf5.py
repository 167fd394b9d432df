import vlib
def run():
    c = vlib.Check("I05", "exploration", "all value kinds x lengths/shapes incl. empty and asymmetric x previous content of the receiving object x two read passes; all wrong-rank and missing-name reads",
                   ["the HDF5 library stores and returns what it is given"])
    d = vlib.build(["h_hdf5"], "asan")
    with vlib.scratch() as s:
        n = vlib.run_harness(c, d / "h_hdf5", [s, c.tier])
    c.cov.update(n or {})
    return c
vlib.main(run)
