"""I07: wout files: (a) every quantity of every result and of every small shape goes through the file unchanged, in the layout other
codes read; (b) the save is failed, shortened or killed at every file-changing libc call (preloaded shim, files of a scratch
directory only): the target path must hold the complete old or new file, a reported success the new one."""
import ctypes, hashlib, itertools, json, os, pathlib, subprocess, sys, tempfile
import numpy as np
import vlib
TH = os.environ.get("VERIF_TIER") == "thorough"
P = pathlib.Path


# ------------------------------------------------------------------ comparing
def same(x, y):
    if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
        if not (isinstance(x, np.ndarray) and isinstance(y, np.ndarray)):
            return False
        if x.shape != y.shape or x.dtype.kind != y.dtype.kind:
            return False
        if x.dtype.kind == "f":
            if x.dtype != y.dtype:
                return False
            return bool(np.all((x == y) & (np.signbit(x) == np.signbit(y)) | (np.isnan(x) & np.isnan(y))))
        return np.array_equal(x, y)
    if isinstance(x, float) and isinstance(y, float):
        return (x == y and np.signbit(x) == np.signbit(y)) or (x != x and y != y)
    return type(x) is type(y) and x == y


def fields(w):
    d = {k: getattr(w, k) for k in type(w).model_fields}
    d.update(w.model_extra or {})
    return d


def diff(a, b):
    x, y = fields(a), fields(b)
    return [(k, x.get(k), y.get(k)) for k in sorted(set(x) | set(y)) if not (k in x and k in y and same(x[k], y[k]))]


def short(v):
    return f"{type(v).__name__}{v.shape}{v.dtype}:{v.ravel()[:4]}" if isinstance(v, np.ndarray) else repr(v)[:60]


# names in the file (the names of the file format are an interface to other codes)
ALIAS = {"lasym": "lasym__logical__", "lfreeb": "lfreeb__logical__", "lrfp": "lrfp__logical__", "volume": "volume_p", "restart_reason_timetrace": "restart_reasons",
         "version": "version_", "maximum_iterations": "niter", "betatot": "betatotal", "volavgB": "volavgB"}
# layout of VMEC's wout format: dimension names per variable
R1 = "phipf chipf phi chi iotaf jcuru jcurv iotas mass pres beta_vol buco bvco vp specw phips over_r jdotb bdotb bdotgradv q_factor presf DMerc DShear DWell DCurr DGeod equif".split()
MN = "rmnc zmns lmns rmns zmnc lmnc".split()
NY = "gmnc bmnc bsubumnc bsubvmnc bsubsmns bsupumnc bsupvmnc gmns bmns bsubumns bsubvmns bsubsmnc bsupumns bsupvmns currumnc currvmnc currumns currvmns".split()
LAYOUT = {k: ("radius",) for k in R1}
LAYOUT.update({k: ("radius", "mn_mode") for k in MN})
LAYOUT.update({k: ("radius", "mn_mode_nyq") for k in NY})
LAYOUT.update({"xm": ("mn_mode",), "xn": ("mn_mode",), "xm_nyq": ("mn_mode_nyq",), "xn_nyq": ("mn_mode_nyq",), "raxis_cc": ("n_tor",), "zaxis_cs": ("n_tor",), "raxis_cs": ("n_tor",), "zaxis_cc": ("n_tor",),
               "am": ("preset",), "ac": ("preset",), "ai": ("preset",), "extcur": ("ext_current",), "fsqt": ("time",), "wdot": ("time",), "mgrid_mode": ("dim_00001",), "mgrid_file": ("dim_00200",),
               "input_extension": ("dim_00100",), "pcurr_type": ("dim_00020",), "pmass_type": ("dim_00020",), "piota_type": ("dim_00020",)})
LAYOUT.update({f"{a}_aux_{b}": ("ndfmax",) for a in ("am", "ac", "ai") for b in "sf"})


def layout(w, path):
    """independent reading of the file: dimension names, sizes, types and values"""
    import netCDF4
    bad = []
    with netCDF4.Dataset(path) as f:
        f.set_auto_mask(False)
        if not f.data_model.startswith("NETCDF3"):
            bad.append(("format", f.data_model))
        size = {n: len(d) for n, d in f.dimensions.items()}
        for n, want in (("radius", w.ns), ("mn_mode", w.mnmax), ("mn_mode_nyq", w.mnmax_nyq), ("n_tor", w.ntor + 1)):
            if n in size and size[n] != want:
                bad.append((f"dimension {n}", f"{size[n]} instead of {want}"))
        x = fields(w)
        for k, val in x.items():
            name = k if k in f.variables else ALIAS.get(k, k)
            if val is None:
                if name in f.variables:
                    bad.append((k, "written although absent"))
                continue
            if name not in f.variables:
                if not (isinstance(val, np.ndarray) and val.size == 0):
                    bad.append((k, "not in the file"))
                continue
            u = f.variables[name]
            if k in LAYOUT and u.dimensions != LAYOUT[k] and not (k == "extcur" and u.dimensions == ()) and w.__dict__.get("_ref", True):
                bad.append((k, f"dimensions {u.dimensions} instead of {LAYOUT[k]}"))
            got = u[()]
            if isinstance(val, str):
                s = got.tobytes().decode("ascii", "replace").strip("\0 ")
                if u.dtype.kind != "S" or s != val.strip("\0 "):
                    bad.append((k, f"{s!r} instead of {val!r}"))
            elif isinstance(val, np.ndarray):
                if k == "extcur" and val.size == 0:
                    continue
                e = val.T if val.ndim == 2 else val
                if got.shape[:1] != e.shape[:1] and u.ndim == 1 and got.shape[0] > e.shape[0]:
                    got = got[:e.shape[0]]
                if u.dtype != (np.int32 if e.dtype.kind in "iu" and name not in ("xm", "xn", "xm_nyq", "xn_nyq") else np.float64) or not same(np.asarray(got, e.dtype), np.ascontiguousarray(e)):
                    bad.append((k, f"{short(np.asarray(got))} instead of {short(e)}"))
            elif isinstance(val, (bool, int)):
                if u.dtype != np.int32 or int(got) != int(val):
                    bad.append((k, f"{got} {u.dtype} instead of {val}"))
            elif isinstance(val, float):
                if u.dtype != np.float64 or not same(float(got), val):
                    bad.append((k, f"{got} {u.dtype} instead of {val}"))
    return bad


# ------------------------------------------------------------------ contents
class Ctx:
    pass


def init():
    import equil as E
    c = Ctx()
    c.v, c.E = vlib.load_vmecpp(), E
    E.quiet()
    c.free, c.fixed = E.free(c.v), E.fixed(c.v)
    c.base = {}
    return c


NF = ["sol", "solan", "circ", "udas", "cth", "li", "cma", "ell", "ela"]
FR = ["solf", "cthf", "cthfa", "solfa"]


def outcome(c, name):
    if name not in c.base:
        if name in FR:
            i, t = c.free[name]
        else:
            i, t = c.fixed[name], None
            i, t = (i if not isinstance(i, tuple) else i[0]), None
        i = i.model_copy(update={"ns_array": np.array([5]), "ftol_array": np.array([1e-4]), "niter_array": np.array([40]), "return_outputs_even_if_not_converged": True})
        c.base[name] = c.v.run(i, magnetic_field=t, max_threads=1, verbose=False)
    return c.base[name]


def reshaped(w, sz):
    """the result with other sizes: every array gets distinct values in the shape that follows from the sizes"""
    old = {"ns": w.ns, "mn": w.mnmax, "ny": w.mnmax_nyq, "nt": w.ntor + 1, "it": len(w.fsqt), "ex": len(w.extcur)}
    up, q = {}, 1.0
    d1 = {}
    for k, a in fields(w).items():
        if not isinstance(a, np.ndarray):
            continue
        if k in LAYOUT and k not in ("mgrid_mode",):
            dims = {"radius": "ns", "mn_mode": "mn", "mn_mode_nyq": "ny", "n_tor": "nt", "time": "it", "ext_current": "ex", "preset": 21, "ndfmax": 101}
            dims = [dims[x] for x in LAYOUT[k]][::-1]
        elif a.ndim == 2:
            dims = ["mn" if a.shape[0] == old["mn"] else "ny" if a.shape[0] == old["ny"] else a.shape[0], "ns" if a.shape[1] == old["ns"] else a.shape[1]]
        elif a.ndim == 1:
            dims = ["it" if a.shape[0] == old["it"] else "ns" if a.shape[0] == old["ns"] else a.shape[0]]
        else:
            continue
        shp = tuple(sz[x] if isinstance(x, str) else x for x in dims)
        n = int(np.prod(shp))
        if a.dtype.kind == "i":
            up[k] = (np.arange(n) % 4 + 1).astype(a.dtype).reshape(shp)
        else:
            up[k] = (q + np.arange(n) / 7.0).reshape(shp)
            q += n / 7.0 + 1
    up.update(ns=sz["ns"], mnmax=sz["mn"], mnmax_nyq=sz["ny"], ntor=sz["nt"] - 1, nextcur=sz["ex"])
    d = {k: getattr(w, k) for k in type(w).model_fields}
    d.update(up)
    return type(w).model_validate(d, by_name=True)


SPECIAL_F = [0.0, -0.0, float("nan"), float("inf"), -float("inf"), 5e-324, 1.7976931348623157e308, 9.969209968386869e36, -9.969209968386869e36, 1 / 3]
SPECIAL_I = [0, -1, 1, 2**31 - 1, -2**31, -2147483647, 2**31, -2**31 - 1, 2**40]


def go(c, w, tag, d, chk_layout=True):
    """save, read, compare; returns problems"""
    p = P(d) / "wout_case.nc"
    if p.exists():
        p.unlink()
    try:
        w.save(p)
    except Exception as e:
        return [(f"{tag} save", f"{type(e).__name__}: {e}")], False
    bad = []
    if chk_layout:
        bad += [(f"{tag} layout {k}", m) for k, m in layout(w, p)]
    try:
        b = type(w).from_wout_file(p)
    except Exception as e:
        return bad + [(f"{tag} load", f"{type(e).__name__}: {e}")], True
    bad += [(f"{tag} round trip {k}", f"{short(x)} came back as {short(y)}") for k, x, y in diff(w, b)]
    if [q.name for q in P(d).iterdir()] != ["wout_case.nc"]:
        bad.append((f"{tag} files", f"{[q.name for q in P(d).iterdir()]}"))
    return bad, True


def work(c, case):
    with tempfile.TemporaryDirectory(dir=c.scratch if hasattr(c, "scratch") else None) as d:
        return work1(c, case, d)


def work1(c, case, d):
    kind = case[0]
    W = c.v.VmecWOut
    if kind == "result":
        o = outcome(c, case[1])
        bad, _ = go(c, o.wout, f"result {case[1]}", d)
        # the complete output through JSON
        try:
            s = o.model_dump_json()
        except Exception as e:
            return bad + [(f"result {case[1]} json", repr(e))], 2
        try:
            b = c.v.VmecOutput.model_validate_json(s)
        except Exception as e:
            return bad + [(f"result {case[1]} json", f"{type(e).__name__} {str(e)[:200]}")], 2
        for part in type(o).model_fields:
            if part != "input":
                bad += [(f"result {case[1]} json {part}.{k}", f"{short(x)} -> {short(y)}") for k, x, y in diff(getattr(o, part), getattr(b, part))]
        return bad, 2
    if kind == "reffile":
        p = case[1]
        w = W.from_wout_file(p)
        bad, _ = go(c, w, f"reference {P(p).name}", d, chk_layout=False)
        import netCDF4
        if not bad:
            with netCDF4.Dataset(p) as f, netCDF4.Dataset(P(d) / "wout_case.nc") as g:
                f.set_auto_mask(False), g.set_auto_mask(False)
                for k, u in f.variables.items():
                    x = u[()]
                    if k not in g.variables:
                        if k in LAYOUT or k in ALIAS.values():
                            bad.append((f"reference {P(p).name} {k}", "lost"))
                        continue
                    y = g.variables[k]
                    if u.dtype.kind == "S":
                        ok = bytes(x.tobytes()).strip(b"\0 ") == bytes(y[()].tobytes()).strip(b"\0 ")
                    else:
                        ok = u.shape == y.shape and u.dtype == y.dtype and same(np.asarray(x), np.asarray(y[()]))
                        # dimension names: the anonymous ones of other writers may differ
                        if any(a != b for a, b in zip(u.dimensions, y.dimensions) if a in ("radius", "mn_mode", "mn_mode_nyq", "n_tor", "preset", "ndfmax", "time", "ext_current") or b in ("radius", "mn_mode", "mn_mode_nyq")):
                            ok = False
                    if not ok:
                        bad.append((f"reference {P(p).name} {k}", f"{u.dimensions}{u.shape}{u.dtype} became {y.dimensions}{y.shape}{y.dtype}"))
        return bad, 1
    if kind == "shape":
        w = reshaped(outcome(c, case[1]).wout, case[2])
        bad, _ = go(c, w, f"shape {case[1]}", d)
        return [(t, m + f" for {case[2]}") for t, m in bad], 1
    if kind == "value":
        o = outcome(c, case[1]).wout
        k = case[2]
        val = getattr(o, k)
        n, bad = 0, []
        # wide and out-of-range integers, and text that does not fit, may be refused but not changed
        if isinstance(val, bool):
            new = [True, False]
        elif isinstance(val, int):
            new = SPECIAL_I
        elif isinstance(val, float):
            new = SPECIAL_F
        elif isinstance(val, str):
            new = ["", "a", "a b", "A" * 19, "B" * 20, "C" * 21, "x" * 99, "x" * 100, "y" * 101, "z" * 200, "z" * 201, "\u00e4\u00df", "two_power", "cubic_spline", "R", "S", "N"]
        elif isinstance(val, np.ndarray) and val.size:
            new = []
            for s in (SPECIAL_F if val.dtype.kind == "f" else [x for x in SPECIAL_I if abs(x) < 2**31]):
                for pos in {0, val.size // 2, val.size - 1}:
                    a = val.copy()
                    try:
                        a.reshape(-1)[pos] = s
                    except OverflowError:
                        continue
                    new.append(a)
        else:
            return [], 0
        dd = {q: getattr(o, q) for q in type(o).model_fields}
        for x in new:
            n += 1
            # sizes that describe other arrays cannot be changed on their own
            if k in ("ns", "mnmax", "mnmax_nyq", "ntor", "nextcur", "lasym"):
                continue
            try:
                w = type(o).model_validate({**dd, k: x}, by_name=True)
            except Exception:
                continue
            b, _ = go(c, w, f"value {k}", d)
            fits = not (isinstance(x, int) and abs(x) > 2**31 - 1) and not (isinstance(x, str) and not x.isascii()) and not (isinstance(x, np.ndarray) and x.dtype.kind == "i" and np.max(np.abs(x.astype(float))) > 2**31 - 1)
            for t, m in b:
                if t.endswith(" save") and not fits:
                    continue
                bad.append((t, m + f" with {short(x)}"))
        return bad, n
    if kind == "missing":
        import netCDF4
        o = outcome(c, case[1]).wout
        p = P(d) / "full.nc"
        o.save(p)
        bad, n = [], 0
        with netCDF4.Dataset(p) as f:
            names = list(f.variables)
        for m in names:
            q = P(d) / "less.nc"
            with netCDF4.Dataset(p) as f, netCDF4.Dataset(q, "w", format="NETCDF3_CLASSIC") as g:
                f.set_auto_mask(False)
                for dn, dm in f.dimensions.items():
                    g.createDimension(dn, len(dm))
                for k, u in f.variables.items():
                    if k != m:
                        x = g.createVariable(k, u.dtype, u.dimensions)
                        x[...] = u[...]
            n += 1
            try:
                b = W.from_wout_file(q)
            except Exception:
                continue          # reported
            for k, x, y in diff(o, b):
                if k == m or ALIAS.get(k) == m:
                    dflt = type(o).model_fields[k].get_default(call_default_factory=True)
                    if not same(y, dflt) and not (k in ("lmns_full", "lmnc_full") and np.all(np.asarray(y) == 0)) and not (isinstance(y, np.ndarray) and y.size == 0) and y not in (0, "", False, None):
                        bad.append((f"missing {m}", f"{k} invented as {short(y)}"))
                else:
                    bad.append((f"missing {m}", f"{k} changed from {short(x)} to {short(y)}"))
        return bad, n
    if kind == "path":
        o = outcome(c, "sol").wout
        bad, n = [], 0
        for arg in (str(P(d) / "a.nc"), P(d) / "b.nc", str(P(d) / "no_suffix"), P(d) / "wout_x.y.nc"):
            n += 1
            o.save(arg)
            if diff(o, W.from_wout_file(arg)):
                bad.append(("path", f"{arg}"))
        old = os.getcwd()
        os.chdir(d)
        try:
            o.save("rel.nc")
            if diff(o, W.from_wout_file("rel.nc")):
                bad.append(("path", "relative"))
            n += 1
        finally:
            os.chdir(old)
        have = sorted(os.listdir(d))
        for arg in (P(d) / "x.h5", P(d) / "none" / "x.nc", P(d)):
            n += 1
            try:
                o.save(arg)
                bad.append(("path", f"saving to {arg} succeeded"))
            except Exception:
                pass
            if sorted(os.listdir(d)) != have:
                bad.append(("path", f"a failing save to {P(arg).name} left {set(os.listdir(d)) - set(have)}"))
        # overwriting a longer and a shorter file
        for a, b in ((o, outcome(c, "cth").wout), (outcome(c, "cth").wout, o)):
            n += 1
            a.save(P(d) / "o.nc"), b.save(P(d) / "o.nc")
            if diff(b, W.from_wout_file(P(d) / "o.nc")):
                bad.append(("path", "overwriting"))
        return bad, n
    raise ValueError(kind)


# ------------------------------------------------------------------ faults (in a process with the shim preloaded)
KINDS = [("EIO", 1, 5), ("ENOSPC", 1, 28), ("full from here", 6, 28), ("short", 2, 0), ("die before", 3, 0), ("die in the middle", 4, 0), ("die after", 5, 0)]


def faults(src, scratch, part, parts, step):
    v = vlib.load_vmecpp()
    L = ctypes.CDLL(None)
    L.iofault_last.restype, L.iofault_count.restype = ctypes.c_char_p, ctypes.c_long
    W = v.VmecWOut
    w = W.from_wout_file(src)
    other = w.model_copy(update={"aspect": 1.5, "rmnc": w.rmnc * 3})
    d = P(scratch) / f"f{part}"
    d.mkdir()
    target = d / "wout_t.nc"

    def child(k, kind, e, count=None):
        pid = os.fork()
        if pid == 0:
            try:
                sys.stderr = open(os.devnull, "w")
                L.iofault_arm((str(d) + "/").encode(), ctypes.c_long(k), kind, e)
                r = 0
                try:
                    w.save(target)
                except Exception:
                    r = 1
                n, la = L.iofault_count(), L.iofault_last()
                L.iofault_off()
                (P(scratch) / f"c{part}").write_text(f"{n} {la.decode()}")
                os._exit(r)
            finally:
                os._exit(9)
        return os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])

    def digest(p):
        return hashlib.sha1(p.read_bytes()).hexdigest() if p.exists() else None
    other.save(target)
    oldb = target.read_bytes()
    rc = child(-1, 0, 0)
    total = int((P(scratch) / f"c{part}").read_text().split()[0])
    new, old = digest(target), hashlib.sha1(oldb).hexdigest()
    assert rc == 0 and new != old and not diff(w, W.from_wout_file(target))
    res = {"calls": total, "points": 0, "bad": [], "out": {}}
    idx = 0
    for had in (True, False):
        for name, kind, e in KINDS:
            for k in range(1, total + 1, 1 if k_all(name, had) else step):
                idx += 1
                if idx % parts != part:
                    continue
                for q in d.iterdir():
                    q.unlink()
                if had:
                    target.write_bytes(oldb)
                f = P(scratch) / f"c{part}"
                f.unlink(missing_ok=True)
                rc = child(k, kind, e)
                hit = f.read_text().split(" ", 1)[1] if f.exists() else "?"
                now = digest(target)
                before = old if had else None
                res["points"] += 1
                state = "new" if now == new else "old" if now == before else "broken"
                out = {0: "success", 1: "reported", 99: "died"}.get(rc, f"rc {rc}")
                key = f"{name}/{out}/{state}"
                res["out"][key] = res["out"].get(key, 0) + 1
                tag = f"fault {name}"
                if state == "broken":
                    # a complete file with other bytes is as good
                    try:
                        if not diff(w, W.from_wout_file(target)) and target.stat().st_size >= len(oldb):
                            state = "new"
                    except Exception:
                        pass
                if state == "broken":
                    res["bad"].append((f"{tag} target", f"call {k} ({hit}) {out}: target is neither the old nor the new file ({target.stat().st_size if target.exists() else 'missing'} bytes)"))
                if rc == 0 and state != "new":
                    res["bad"].append((f"{tag} success", f"call {k} ({hit}): success reported, target is {state}"))
                if rc not in (0, 1, 99):
                    res["bad"].append((f"{tag} crash", f"call {k}: exit status {rc}"))
                if rc == 1 and hit not in ("unlink", "unlinkat"):
                    left = [q.name for q in d.iterdir() if q != target]
                    if left:
                        res["bad"].append((f"{tag} leftover", f"call {k} ({hit}): failed save left {left}"))
    print("RESULT " + json.dumps(res))


def k_all(name, had):
    return True


def run():
    chk = vlib.Check("I07", "fault_enumeration", "(a) every result x every field x special values, all small shapes, every missing variable, every reference file; (b) every file-changing libc call of a save x {EIO, ENOSPC, disk full from there, short write, death before/in/after} x {old file present, absent}",
                     ["faults are injected at the libc entry points used by the writer; the file system itself is assumed to rename atomically"])
    vlib.build(["_vmecpp"])
    names = NF + FR
    cs = [("result", n) for n in names]
    refs = sorted({p.name: str(p) for p in (*vlib.REPO.glob("src/**/test_data/wout*.nc"), *vlib.REPO.glob("examples/data/wout*.nc")) if p.stat().st_size > 1000}.values())
    cs += [("reffile", p) for p in refs]
    szs = []
    for ns, mn, ny in itertools.product((1, 2, 3, 5), (1, 2, 3, 5), (1, 2, 3, 5, 6)):
        szs.append({"ns": ns, "mn": mn, "ny": ny, "nt": 1 + (ns + mn) % 3, "it": ny % 4, "ex": 0})
    for nt, it, ex in itertools.product((1, 2, 3), (0, 1, 3, 5), (0, 1, 2, 3, 13)):
        szs.append({"ns": 3, "mn": 2, "ny": 5, "nt": nt, "it": it, "ex": ex})
    for n in ("sol", "ela") + (("solf", "cthfa", "li") if TH else ()):
        cs += [("shape", n, s) for s in szs]
    cs += [("missing", "sol"), ("missing", "ela"), ("path",)]
    fl = fieldnames()
    for n in ("sol", "ela") + (("solf",) if TH else ()):
        cs += [("value", n, k) for k in fl]
    n = 0
    for case, r in zip(cs, vlib.pmap(cs, work, init)):
        if r.kind != "ok":
            chk.fail(f"{case[0]} case", f"{case}: {r.kind} {r.value}")
            continue
        bad, m = r.value
        n += m
        chk.seen((case[0], str(case[1:2]), len(bad)))
        chk.evaluations += m
        for t, msg in bad:
            chk.fail(t, f"{case}: {msg}", {"case": str(case)})
    # faults
    with vlib.scratch() as s:
        s = P(s)
        so = s / "iofault.so"
        subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", so, vlib.VERIF / "shim" / "iofault" / "iofault.c", "-ldl"], check=True)
        src = s / "src.nc"
        r = subprocess.run([sys.executable, "-B", __file__, "make", str(src)], capture_output=True, text=True, env={**os.environ, "PYTHONPATH": str(vlib.VERIF / "lib")})
        if not src.exists():
            chk.fail("fault preparation", r.stderr[-500:])
            return chk
        ps = []
        N = 8
        for p in range(N):
            env = {**os.environ, "LD_PRELOAD": str(so), "PYTHONPATH": str(vlib.VERIF / "lib"), "VERIF_TIER": "thorough" if TH else "quick"}
            ps.append(subprocess.Popen([sys.executable, "-B", __file__, "faults", str(src), str(s), str(p), str(N), "5"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env))
        out = {}
        pts = 0
        for p in ps:
            o, e = p.communicate()
            l = [x for x in o.splitlines() if x.startswith("RESULT ")]
            if not l:
                chk.fail("fault run", e[-800:])
                continue
            d = json.loads(l[0][7:])
            pts += d["points"]
            for k, m in d["out"].items():
                out[k] = out.get(k, 0) + m
            for t, m in d["bad"]:
                chk.fail(t, m)
            calls = d["calls"]
        chk.evaluations += pts
        for k in out:
            chk.seen(("fault", k))
        chk.cov.update({"cases": len(cs), "round_trips": n, "calls_of_a_save": calls if pts else 0, "fault_points": pts, "fault_outcomes": out})
    return chk


def fieldnames():
    r = subprocess.run([sys.executable, "-B", __file__, "fields"], capture_output=True, text=True, env={**os.environ, "PYTHONPATH": str(vlib.VERIF / "lib")})
    return json.loads(r.stdout.splitlines()[-1])


if len(sys.argv) > 1 and sys.argv[1] == "fields":
    print(json.dumps(list(vlib.load_vmecpp().VmecWOut.model_fields)))
elif len(sys.argv) > 1 and sys.argv[1] == "make":
    c = init()
    o = outcome(c, "sol").wout
    try:
        (o if TH else reshaped(o, {"ns": 4, "mn": 5, "ny": 7, "nt": 1, "it": 60, "ex": 0})).save(sys.argv[2])
    except Exception:
        o.save(sys.argv[2])
elif len(sys.argv) > 1 and sys.argv[1] == "faults":
    faults(sys.argv[2], sys.argv[3], int(sys.argv[4]), int(sys.argv[5]), int(sys.argv[6]))
else:
    vlib.main(run)
