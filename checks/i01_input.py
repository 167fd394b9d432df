"""I01: every field x representative values (and all pairs of fields) of the run input through
every conversion: scripting model <-> native object <-> JSON text <-> file <-> HDF5 container,
and every change of Fourier resolution, on the real code."""
import itertools as it
import os
import pathlib
import numpy as np
import vlib

TH = os.environ.get("VERIF_TIER") == "thorough"
F = [0.0, 1.0 / 3.0, -2.5e-7, 1.0e300, 5e-324, -123456.78901234567]
A = [[], [0.1], [0.0, -1 / 3.], [1e-300, 2.5, -7e20, 0.0, 0.1 + 0.2], list(np.sqrt(np.arange(21.0)))]
T = ["two_power", "a", "", "twenty_chars_long_xx"]
TXT = ["", "mgrid with space.nc", "/abs/päth/\"q\"\\b.nc", "x" * 200, "1", "null", "a\tb\nc"]
ASYM = ["raxis_s", "zaxis_c", "rbs", "zbc"]
FBM = ["nestor", "only_coils", "biest"]
STY = ["vmec_8_52", "parvmec"]
SCAL = {
    "nfp": [1, 2, 7, 2147483647], "ntheta": [0, 1, 31, 64], "nzeta": [0, 1, 17, 64],
    "mpol_geometry": [-1, 1, 2], "ntor_geometry": [-1, 0, 1],
    "phiedge": F[1:], "ncurr": [0, 1], "pres_scale": F[:2] + F[3:5], "gamma": F, "spres_ped": [1.0, 5e-324, 1 / 3.], "curtor": F,
    "bloat": [1.0, *F],
    "pmass_type": T, "piota_type": T, "pcurr_type": T,
    "lfreeb": [False, True], "mgrid_file": TXT, "nvacskip": [1, 9, 77], "nstep": [1, 10, 777],
    "free_boundary_method": [FBM[2], FBM[0], FBM[1]], "iteration_style": STY, "delt": [1.0, 5e-324, 10.0, 1 / 3.], "tcon0": [0.0, 1.0, 1e-300, 2 / 3.],
    "lforbal": [False, True], "return_outputs_even_if_not_converged": [False, True],
}
ARR = {
    "ns_array": [[3], [5, 51], [3, 3, 4, 99]], "niter_array": [[1], [5, 2147483647], [1, 2, 3, 4]],
    "ftol_array": [[1e-10], [1e-300, 0.5], [0.1, 0.2, 0.3, 0.4]],
    **{k: A for k in ("am", "ai", "ac", "am_aux_s", "am_aux_f", "ai_aux_s", "ai_aux_f", "ac_aux_s", "ac_aux_f", "extcur", "aphi")},
}
COUPLED = {"ns_array": ("ns_array", "ftol_array", "niter_array")}


def base(lasym, mpol, ntor):
    """A valid input in which every coefficient is distinct and non-zero."""
    def mat(seed):
        return np.array([[np.sin(seed + 3.7 * m + 0.31 * n) for n in range(-ntor, ntor + 1)] for m in range(mpol)])
    d = {"lasym": lasym, "mpol": mpol, "ntor": ntor,
         "raxis_c": np.cos(1.0 + np.arange(ntor + 1)), "zaxis_s": np.cos(2.3 + np.arange(ntor + 1)),
         "rbc": mat(0.1), "zbs": mat(0.2)}
    if lasym:
        d |= {"raxis_s": np.cos(3.1 + np.arange(ntor + 1)), "zaxis_c": np.cos(4.9 + np.arange(ntor + 1)),
              "rbs": mat(0.3), "zbc": mat(0.4)}
    return d


def arr(k, v):
    return np.array(v, dtype=np.int64 if k in ("ns_array", "niter_array") else np.float64)


def single_values(b):
    """field -> list of override dicts"""
    out = {}
    for k, vs in SCAL.items():
        out[k] = [{"ncurr": 1, k: v} if k == "bloat" else {k: v} for v in vs]
    for k, vs in ARR.items():
        if k in ("ftol_array", "niter_array"):
            continue
        if k == "ns_array":
            out[k] = [{j: arr(j, ARR[j][i]) for j in COUPLED[k]} for i in range(len(vs))]
        elif k.endswith("_aux_s"):
            j = k[:-1] + "f"
            out[k] = [{k: arr(k, v), j: arr(j, v)[::-1] + 1} for v in vs]
        elif k.endswith("_aux_f"):
            continue
        else:
            out[k] = [{k: arr(k, v)} for v in vs]
    for k in ("raxis_c", "zaxis_s", "rbc", "zbs", *(ASYM if b["lasym"] else ())):
        z = np.zeros_like(b[k])
        vs = [{k: z}]
        for i in range(z.size):       # every single coefficient alone
            e = z.copy()
            e.flat[i] = -0.1 - i / 7
            vs.append({k: e})
        for p in ("first", "last"):   # leading / trailing rows or entries zero
            e = np.array(b[k])
            e[0 if p == "first" else -1] = 0
            vs.append({k: e})
        out[k] = vs
    return out


def cases():
    cs = []
    for lasym, mpol, ntor in it.product((False, True), (2, 3, 4) if TH else (2, 3), (0, 2, 3) if TH else (0, 2)):
        b = base(lasym, mpol, ntor)
        sv = single_values(b)
        cs.append((lasym, mpol, ntor, {}))
        for k, vs in sv.items():
            cs += [(lasym, mpol, ntor, v) for v in vs]
        if mpol == 3:
            for x, y in it.combinations(sv, 2):
                xs, ys = (sv[x][1:], sv[y][1:]) if TH and len(sv[x]) * len(sv[y]) <= 16 else ([sv[x][-1]], [sv[y][-1]])
                cs += [(lasym, mpol, ntor, u | v) for u, v in it.product(xs, ys)
                       if not ((u | v).get("lfreeb") and (u | v).get("free_boundary_method") == "biest")]
    return cs


def same(a, b):
    if a is None or b is None:
        return a is b
    if isinstance(a, (str, bool)) or isinstance(b, (str, bool)):
        return type(a) is type(b) and a == b
    x, y = np.asarray(a), np.asarray(b)
    return x.shape == y.shape and np.array_equal(x, y)


def py_dict(m):
    return {k: (v.value if hasattr(v, "value") and isinstance(v, str) else v)
            for k, v in ((k, getattr(m, k)) for k in type(m).model_fields)}


def nat_dict(d):
    d = dict(d)
    d["free_boundary_method"] = FBM[d["free_boundary_method"]]
    d["iteration_style"] = STY[d["iteration_style"]]
    return d


def to_nat(d):
    d = dict(d)
    d["free_boundary_method"] = FBM.index(d["free_boundary_method"])
    d["iteration_style"] = STY.index(d["iteration_style"])
    return d


def cpp_dict(o, fields):
    d = {k: getattr(o, k) for k in fields}
    for k in ("free_boundary_method", "iteration_style"):
        d[k] = d[k].name.lower()
    return d


class Ctx:
    def __init__(self):
        self.v = vlib.load_vmecpp()
        import logging
        logging.disable(logging.CRITICAL)
        import vmecpp.cpp._vmecpp as c
        self.cpp = c
        self.x = vlib.load_ext("x_indata")
        self.dir = pathlib.Path(os.environ["I01_DIR"]) / str(os.getpid())
        self.dir.mkdir()
        self.fields = list(self.v.VmecInput.model_fields)
        self.dflt = nat_dict(self.x.defaults())
        for k in ("ns_array", "niter_array"):
            self.dflt[k] = np.asarray(self.dflt[k], dtype=np.int64)


def run_case(c, case):
    lasym, mpol, ntor, ov = case
    V, x, cpp = c.v.VmecInput, c.x, c.cpp
    want = {k: c.dflt[k] for k in c.fields} | base(lasym, mpol, ntor) | ov
    bad = []

    def cmp(label, got):
        for k in c.fields:
            if k not in got or not same(want[k], got[k]):
                bad.append((label, k, f"{label}: field {k}: wrote {want[k]!r} got {got.get(k, '<missing>')!r}"))

    def step(label, fn):
        try:
            return fn()
        except Exception as e:  # noqa: BLE001
            bad.append((label, "error", f"{label}: {type(e).__name__}: {str(e)[:600]}"))
            return None
    n = 0
    m = step("scripting model", lambda: V(**want))
    if m is None:
        return bad, 1
    cmp("scripting model", py_dict(m))
    r = step("model->fields->model", lambda: V(**{k: getattr(m, k) for k in c.fields}))
    r is not None and cmp("model->fields->model", py_dict(r))
    r = step("model->model_dump->model", lambda: V.model_validate(m.model_dump()))
    r is not None and cmp("model->model_dump->model", py_dict(r))
    r = step("model copy", lambda: m.model_copy(deep=True))
    r is not None and cmp("model copy", py_dict(r))
    nat = to_nat(want)
    o = step("model->native", lambda: m._to_cpp_vmecindata())
    if o is not None:
        cmp("model->native", cpp_dict(o, c.fields))
        r = step("native->model", lambda: V._from_cpp_vmecindata(o))
        r is not None and cmp("native->model", py_dict(r))
        r = step("native copy", lambda: o.copy())
        r is not None and cmp("native copy", cpp_dict(r, c.fields))
        j = step("native bound to_json", lambda: o.to_json())
        if j is not None:
            r = step("native bound to_json->from_json", lambda: x.from_json(j))
            r is not None and cmp("native bound to_json->from_json", nat_dict(r))
    j = step("model->json", lambda: m.to_json())
    if j is not None:
        r = step("model->json->model", lambda: V.model_validate_json(j))
        r is not None and cmp("model->json->model", py_dict(r))
        r = step("model->json->native", lambda: x.from_json(j))
        r is not None and cmp("model->json->native", nat_dict(r))
    f = c.dir / "in.json"
    step("model->file", lambda: m.save(f))
    r = step("model->file->model", lambda: V.from_file(f))
    r is not None and cmp("model->file->model", py_dict(r))
    r = step("model->file->native", lambda: cpp.VmecINDATA.from_file(f))
    r is not None and cmp("model->file->native", cpp_dict(r, c.fields))
    cmp("native fields", nat_dict(x.ident(nat)))
    cmp("native Copy", nat_dict(x.copy(nat)))
    j = step("native->json", lambda: x.to_json(nat))
    if j is not None:
        r = step("native->json->native", lambda: x.from_json(j))
        if r is not None:
            cmp("native->json->native", nat_dict(r))
            j2 = step("native->json->native->json", lambda: x.to_json(r))
            if j2 is not None and j2 != j:
                bad.append(("native->json twice", "text", "the second JSON text differs from the first"))
        r = step("native->json->model", lambda: V.model_validate_json(j))
        r is not None and cmp("native->json->model", py_dict(r))
    h5 = str(c.dir / "in.h5")
    for rl in ({}, to_nat({k: c.dflt[k] for k in c.fields} | base(True, 2, 1)), to_nat({k: c.dflt[k] for k in c.fields} | base(False, 5, 3))):
        r = step("native->hdf5->native", lambda rl=rl: x.h5(nat, rl, h5))
        r is not None and cmp("native->hdf5->native", nat_dict(r))
    eq = x.equal(nat, nat)
    if eq != (True, False):
        bad.append(("equality", "self", f"equal inputs compare {eq}"))
    if ov:
        nat0 = to_nat({k: c.dflt[k] for k in c.fields} | base(lasym, mpol, ntor))
        differs = any(not same(nat[k], nat0[k]) for k in nat)
        sized = all(np.shape(nat[k]) == np.shape(nat0[k]) for k in nat)   # == needs equal sizes
        eq = x.equal(nat, nat0) if sized else (not differs, differs)
        if eq != (not differs, differs):
            bad.append(("equality", "+".join(ov), f"inputs that differ in {list(ov)} compare (==, !=) {eq}"))
    return bad, 16


def resize_ref(d, mp, nt):
    d = dict(d)
    m0, n0 = d["mpol"], d["ntor"]
    for k in ("raxis_c", "zaxis_s", "raxis_s", "zaxis_c"):
        if d[k] is not None:
            v = np.zeros(nt + 1)
            n = min(n0, nt) + 1
            v[:n] = d[k][:n]
            d[k] = v
    for k in ("rbc", "zbs", "rbs", "zbc"):
        if d[k] is not None:
            v = np.zeros((mp, 2 * nt + 1))
            for m in range(min(m0, mp)):
                for n in range(-min(n0, nt), min(n0, nt) + 1):
                    v[m, n + nt] = d[k][m, n + n0]
            d[k] = v
    d["mpol"], d["ntor"] = mp, nt
    return d


def run_resize(c, case):
    lasym, seq = case
    bad = []
    d = {k: c.dflt[k] for k in c.fields} | base(lasym, *seq[0])
    o = c.v.VmecInput(**d)._to_cpp_vmecindata()
    cur, ref = to_nat(d), d
    for mp, nt in seq[1:]:
        cur = c.x.resize(cur, mp, nt)
        o._set_mpol_ntor(mp, nt)
        ref2 = resize_ref(ref, mp, nt)
        for lbl, got in (("native", nat_dict(cur)), ("bound", cpp_dict(o, c.fields))):
            for k in c.fields:
                if not same(ref2[k], got[k]):
                    bad.append(("resize " + lbl, k, f"resolution sequence {seq}: {k}: expected {ref2[k]!r} got {got[k]!r}"))
        # scripting side: list-valued or changed mpol/ntor adapts the boundary in the same way
        if nt >= ref["ntor"]:
            pin = {k: v for k, v in ref.items()} | {"mpol": mp, "ntor": nt}
            got = py_dict(c.v.VmecInput(**pin))
            for k in c.fields:
                if not same(ref2[k], got[k]):
                    bad.append(("resize model", k, f"{seq}: {k}: expected {ref2[k]!r} got {got[k]!r}"))
        for k in ("rbc", "zbs"):
            got = c.v.VmecInput.resize_2d_coeff(ref[k], mp, nt)
            if not same(ref2[k], got):
                bad.append(("resize_2d_coeff", k, f"{seq}: {k}: expected {ref2[k]!r} got {got!r}"))
        ref = ref2
    return bad, len(seq) - 1


def run_any(c, case):
    return run_case(c, case[1]) if case[0] == "case" else run_resize(c, case[1]) if case[0] == "resize" else run_list(c, case[1])


def run_list(c, case):
    """mpol / ntor given as a list: a one-element list is that number; a longer list is kept by the
    model and the native input has the last entry."""
    lasym, mp, nt = case
    bad = []
    mf, nf = (np.atleast_1d(mp)[-1], np.atleast_1d(nt)[-1])
    d = {k: c.dflt[k] for k in c.fields} | base(lasym, int(mf), int(nf))
    m = c.v.VmecInput(**(d | {"mpol": mp, "ntor": nt}))
    for k, v in (("mpol", mp), ("ntor", nt)):
        w = int(v[0]) if isinstance(v, list) and len(v) == 1 else v
        if not same(np.asarray(getattr(m, k)), np.asarray(w)):
            bad.append(("list " + k, "model", f"given {v!r} kept {getattr(m, k)!r}"))
    got = cpp_dict(m._to_cpp_vmecindata(), c.fields)
    for k in c.fields:
        if not same(d[k], got[k]):
            bad.append(("list native", k, f"mpol={mp} ntor={nt}: {k} expected {d[k]!r} got {got[k]!r}"))
    r = c.v.VmecInput.model_validate_json(m.to_json())
    for k in c.fields:
        if not same(np.asarray(getattr(m, k)) if k in ("mpol", "ntor") else py_dict(m)[k],
                    np.asarray(getattr(r, k)) if k in ("mpol", "ntor") else py_dict(r)[k]):
            bad.append(("list json", k, f"mpol={mp} ntor={nt}: {k} differs after to_json/model_validate_json"))
    f = c.dir / "l.json"
    m.save(f)
    try:
        g = c.v.VmecInput.from_file(f)
    except Exception:  # noqa: BLE001  (lists may be refused by the native reader)
        g = None
    if g is not None and not (same(np.asarray(g.mpol), np.asarray(m.mpol)) and same(np.asarray(g.ntor), np.asarray(m.ntor))):
        bad.append(("list file", "mpol/ntor", f"mpol={mp} ntor={nt} read back from file as {g.mpol}/{g.ntor}"))
    return bad, 4


def check():
    chk = vlib.Check("I01", "exploration", "run input deviating in one or two fields from 4-8 bases x every conversion chain; "
                     "resolution-change sequences", ["values up to the stated alphabets; NaN and infinite values not included"])
    vlib.build(["_vmecpp", "x_indata"])
    cs = [("case", c) for c in cases()]
    res = [(m, n) for m in (2, 3, 5) for n in (0, 1, 3)]
    for lasym in (False, True):
        depth = 4 if TH else 3
        cs += [("resize", (lasym, s)) for s in it.product(res, repeat=depth)]
        cs += [("list", (lasym, mp, nt)) for mp in (3, [3], [2, 3], [3, 2], [2, 2, 3]) for nt in (2, [2], [0, 2], [2, 1], [0, 1, 2])]
    with vlib.scratch("vi01") as d:
        os.environ["I01_DIR"] = str(d)
        out = vlib.pmap(cs, run_any, init=Ctx, timeout=60)
    n = 0
    kinds = {}
    for r in out:
        kinds[r.kind] = kinds.get(r.kind, 0) + 1
    for cse, r in zip(cs, out):
        name = f"{cse[0]}:{'+'.join(cse[1][3]) if cse[0] == 'case' else cse[1]}"
        if r.kind != "ok":
            chk.fail(f"{r.kind}:{name}", f"{cse} -> {r}", {"case": repr(cse)})
            continue
        bad, k = r.value
        n += k
        chk.seen(cse[0] + (":" + ",".join(sorted(cse[1][3])) if cse[0] == "case" else str(cse[1])[:60]))
        for label, field, detail in bad:
            chk.fail(f"{label}:{field}", detail + f"   [case {name}]", {"case": repr(cse)})
    chk.cov |= {"cases": len(cs), "conversions": n}
    return chk


vlib.main(check)
