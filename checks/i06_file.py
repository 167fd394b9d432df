import vlib
def run():
    c = vlib.Check("I06", "fault_enumeration", "all contents of length <=3 (thorough 4) over a 12-byte alphabet x previous contents; every byte offset at which the kernel stops storing (RLIMIT_FSIZE) and every k-th failing read/write call",
                   ["faults are injected at the read/write/writev symbols and by the kernel file-size limit"])
    d = vlib.build(["h_file"], "asan")
    with vlib.scratch() as s:
        n = vlib.run_harness(c, d / "h_file", [s, c.tier])
    c.cov.update(n or {})
    return c
vlib.main(run)
