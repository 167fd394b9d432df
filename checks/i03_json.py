import vlib
def run():
    c = vlib.Check("I03", "exploration", "every (document shape, value kind, requested type) triple and all arrays over the element alphabet up to length 3 (thorough: 4); outcome classes = reader x {absent, error, value}",
                   ["reference model: nlohmann value kind + 32-bit range test; ASan/UBSan build of the readers"])
    d = vlib.build(["h_json"], "asan")
    n = vlib.run_harness(c, d / "h_json", [c.tier])
    c.cov.update(n or {})
    return c
vlib.main(run)
