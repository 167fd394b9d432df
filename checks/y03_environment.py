"""Y03: helpers that switch directories / convert files: every nesting and every failing step.
Faults are injected with an interpreter audit hook: the k-th file-system or process event raises OSError."""
import contextlib, hashlib, itertools, json, math, os, pathlib, shutil, stat, sys, tempfile
import vlib

P = pathlib.Path
EVENTS = {"open", "os.chdir", "os.mkdir", "os.rename", "os.remove", "os.rmdir", "os.link", "os.symlink", "os.truncate", "os.chmod", "os.listdir", "os.scandir",
          "subprocess.Popen", "shutil.copyfile", "shutil.move", "shutil.rmtree", "tempfile.mkdtemp", "tempfile.mkstemp", "shutil.copymode", "shutil.copystat", "os.putenv"}
CLEANUP = {"os.remove", "os.rmdir", "shutil.rmtree", "os.scandir", "os.listdir"}
ST = {"on": False, "n": 0, "at": -1, "hit": None, "root": "", "log": []}


class Fault(OSError):
    pass


def hook(ev, args):
    if not ST["on"] or ev not in EVENTS:
        return
    if ev == "open":
        p = args[0]
        if isinstance(p, int) or p is None:
            pass
        else:
            p = os.fsdecode(p)
            if p.endswith((".py", ".pyc", ".so", ".pth")) or p.startswith(("/proc", "/dev", "/usr", "/opt/vp")):
                return
    if ev in ("os.listdir", "os.scandir") and args and isinstance(args[0], str) and args[0].startswith(("/opt/vp", "/repo", "/usr")):
        return
    ST["n"] += 1
    ST["log"].append((ev, str(args[0])[:80] if args else ""))
    if ST["n"] == ST["at"]:
        # directory descriptors (os.open, no mode string) are only opened for removal
        ST["hit"] = "shutil.rmtree" if ev == "open" and len(args) > 2 and args[1] is None and not (args[2] or 0) & os.O_CREAT else ev
        raise Fault(5, "injected I/O error", ev)


FAKE = r"""#!/bin/bash
# stand-in for the Fortran converter: behaviour selected by the input file's last line
in="${@: -1}"
mode=$(tail -1 "$in"); name="${in#input.}"
case "$mode" in
 '!ok') echo "$PWD $*" >"$VCONV_LOG"; cp "$VCONV_JSON" "$name.json";;
 '!fail') exit 3;;
 '!partial') echo '{"mpol":' > "$name.json"; exit 4;;
 '!none') exit 0;;
 '!kill') kill -9 $$;;
 '!mess') echo x > scratchfile; mkdir d; echo y > d/z; echo changed > "$in"; cp "$VCONV_JSON" "$name.json";;
esac
"""


def snap(d):
    r = {}
    for p in sorted(P(d).rglob("*")):
        r[str(p.relative_to(d))] = hashlib.sha1(p.read_bytes()).hexdigest() if p.is_file() else "dir"
    return r


def init():
    v = vlib.load_vmecpp()
    sys.addaudithook(hook)
    import logging
    logging.disable(logging.CRITICAL)
    return v


@contextlib.contextmanager
def world():
    base = P(tempfile.mkdtemp(prefix="y03_", dir="/tmp"))
    old_tmp, old_cwd, old_env = tempfile.tempdir, os.getcwd(), dict(os.environ)
    try:
        for d in ("cwd", "in", "out", "tmp", "dist/cpp/third_party/indata2json"):
            (base / d).mkdir(parents=True)
        exe = base / "dist/cpp/third_party/indata2json/indata2json"
        exe.write_text(FAKE)
        exe.chmod(0o755)
        tempfile.tempdir = str(base / "tmp")
        os.environ["TMPDIR"] = str(base / "tmp")
        os.environ["VCONV_JSON"] = str(base / "answer.json")
        os.environ["VCONV_LOG"] = str(base / "conv.log")
        shutil.copy("/repo/examples/data/solovev.json", base / "answer.json")
        os.chdir(base / "cwd")
        yield base
    finally:
        ST["on"] = False
        tempfile.tempdir = old_tmp
        os.environ.clear()
        os.environ.update(old_env)
        os.chdir(old_cwd)
        shutil.rmtree(base, ignore_errors=True)


def faulty(f, at):
    ST.update(on=True, n=0, at=at, hit=None, log=[])
    try:
        return "ok", f()
    except BaseException as e:  # noqa: BLE001
        return "exc", e
    finally:
        ST["on"] = False


def same_input(a, b):
    return a.model_dump_json() == b.model_dump_json()


# ------------------------------------------------------------- conversion scenarios
def scenario(v, base, name, mode):
    """returns (callable, expected new files on success relative to base, verify(result))"""
    from vmecpp import _util as U
    U.distribution_root = lambda: base / "dist"
    src = base / "in" / "input.case.x"
    src.write_text("! a comment\n\n  &INDATA\n  mpol = 3\n/\n" + mode + "\n")
    js = base / "in" / "plain.json"
    shutil.copy(base / "answer.json", js)
    ref = (base / "answer.json").read_bytes()
    if name == "to_json_default":
        return lambda: U.indata_to_json(src), {"cwd/case.x.json"}, lambda r: P(r) == base / "cwd" / "case.x.json" and P(r).is_absolute() and P(r).read_bytes() == ref
    if name == "to_json_abs_mgrid":
        def ver(r):
            return P(r).read_bytes() == ref and (mode != "!ok" or str(src.parent) in (base / "conv.log").read_text())
        return lambda: U.indata_to_json(src, use_mgrid_file_absolute_path=True), {"cwd/case.x.json"}, ver
    if name == "to_json_rel_in":
        return lambda: U.indata_to_json(P("../in/input.case.x")), {"cwd/case.x.json"}, lambda r: P(r).read_bytes() == ref
    if name == "to_json_override_rel":
        return lambda: U.indata_to_json(src, output_override=P("../out/o.json")), {"out/o.json"}, lambda r: P(r) == base / "out/o.json" and P(r).read_bytes() == ref
    if name == "to_json_override_abs":
        return lambda: U.indata_to_json(src, output_override=base / "out/o.json"), {"out/o.json"}, lambda r: P(r).read_bytes() == ref
    if name == "to_json_over_existing":
        (base / "out/o.json").write_text("old content " * 10000)
        return lambda: U.indata_to_json(src, output_override=base / "out/o.json"), {"out/o.json"}, lambda r: P(r).read_bytes() == ref
    if name == "ensure_json_from_indata":
        def f():
            with v.ensure_vmecpp_input(src) as p:
                ST["on"] = False
                got = P(p).read_bytes()
                ST["on"] = True
                return got, P(p)
        return f, set(), lambda r: r[0] == ref and r[1] != src and not r[1].exists()
    if name == "ensure_json_body_raises":
        def f():
            try:
                with v.ensure_vmecpp_input(src) as p:
                    raise KeyError("body")
            except KeyError:
                return "propagated"
        return f, set(), lambda r: r == "propagated"
    if name == "ensure_json_from_json":
        def f():
            with v.ensure_vmecpp_input(js) as p:
                return P(p)
        return f, set(), lambda r: r == js
    if name == "ensure_indata_from_indata":
        def f():
            with v.ensure_vmec2000_input(src) as p:
                return P(p)
        return f, set(), lambda r: r == src
    if name == "ensure_indata_from_json":
        def f():
            with v.ensure_vmec2000_input(js) as p:
                ST["on"] = False
                t = P(p).read_text()
                ST["on"] = True
                return P(p), t
        return f, set(), lambda r: r[0].name == "input.plain" and not r[0].exists() and "&INDATA" in r[1]
    if name == "ensure_indata_body_raises":
        def f():
            try:
                with v.ensure_vmec2000_input(js):
                    raise KeyError("body")
            except KeyError:
                return "propagated"
        return f, set(), lambda r: r == "propagated"
    if name == "from_file_indata":
        want = v.VmecInput.from_file(base / "answer.json")
        return lambda: v.VmecInput.from_file(src), set(), lambda r: same_input(r, want)
    if name == "from_file_indata_str_rel":
        want = v.VmecInput.from_file(base / "answer.json")
        return lambda: v.VmecInput.from_file("../in/input.case.x"), set(), lambda r: same_input(r, want)
    if name == "from_file_json":
        want = v.VmecInput.from_file(base / "answer.json")
        return lambda: v.VmecInput.from_file(js), set(), lambda r: same_input(r, want)
    if name == "from_file_bad_json":
        js.write_text('{"mpol": ')
        def f():
            try:
                v.VmecInput.from_file(js)
            except Exception as e:
                if isinstance(e, Fault):
                    raise
                return "refused"
        return f, set(), lambda r: r == "refused"
    if name == "nested":
        src2 = base / "in" / "input.other"
        src2.write_text("&INDATA\n/\n!ok\n")
        def f():
            with v.ensure_vmecpp_input(src) as p, v.ensure_vmecpp_input(src2) as q, v.ensure_vmec2000_input(js) as r:
                ST["on"] = False
                ok = P(p).read_bytes() == ref and P(q).read_bytes() == ref and P(r).exists() and len({str(p), str(q), str(r)}) == 3
                ST["on"] = True
            return ok
        return f, set(), lambda r: r is True
    raise AssertionError(name)


SCEN = ["to_json_default", "to_json_abs_mgrid", "to_json_rel_in", "to_json_override_rel", "to_json_override_abs", "to_json_over_existing", "ensure_json_from_indata",
        "ensure_json_body_raises", "ensure_json_from_json", "ensure_indata_from_indata", "ensure_indata_from_json", "ensure_indata_body_raises", "from_file_indata", "from_file_indata_str_rel",
        "from_file_json", "from_file_bad_json", "nested"]
CONV = {s for s in SCEN if s not in ("ensure_json_from_json", "ensure_indata_from_indata", "ensure_indata_from_json", "ensure_indata_body_raises", "from_file_json", "from_file_bad_json")}


def conv_case(v, c):
    name, mode = c
    viol, outs, n = [], {}, 0
    at = 0
    total = None
    while True:
        with world() as base:
            f, new, ver = scenario(v, base, name, mode)
            before = {d: snap(base / d) for d in ("cwd", "in", "out", "tmp", "dist")}
            cwd, env = os.getcwd(), dict(os.environ)
            kind, val = faulty(f, at)
            hit = ST["hit"]
            n += 1
            key = f"{name} {mode} fault@{at}:{hit}"
            try:
                now = os.getcwd()
            except OSError:
                now = "(deleted)"
            if now != cwd and hit != "os.chdir":
                viol.append((key, f"working directory left at {now} instead of {cwd}; {kind} {val!r}"))
            os.chdir(cwd)
            if dict(os.environ) != env:
                viol.append((key, "environment changed"))
            after = {d: snap(base / d) for d in before}
            converter_bad = mode not in ("!ok", "!mess") and name in CONV
            diff = []
            for d in before:
                for p in set(before[d]) | set(after[d]):
                    if before[d].get(p) != after[d].get(p):
                        diff.append(f"{d}/{p}")
            if hit is None and not converter_bad:
                if kind != "ok":
                    viol.append((key, f"failed: {val!r}"))
                elif not ver(val):
                    viol.append((key, f"wrong result {str(val)[:300]}"))
                extra = set(diff) - new
                if extra:
                    viol.append((key, f"left behind or changed: {sorted(extra)}"))
            elif hit is None:
                if kind == "ok":
                    viol.append((key, f"converter failure reported as success: {str(val)[:200]}"))
                if diff:
                    viol.append((key, f"left behind or changed: {diff}"))
            else:
                if kind == "ok" and not converter_bad and hit not in CLEANUP and not ver(val):
                    viol.append((key, f"failing step not reported and result wrong: {str(val)[:200]}"))
                if kind == "ok" and converter_bad:
                    viol.append((key, "converter failure reported as success"))
                extra = set(diff) - new
                if [x for x in diff if x.startswith(("in/input", "in/plain", "dist/"))]:
                    viol.append((key, f"input changed: {diff}"))
                elif extra and hit not in CLEANUP and hit != "os.chdir":
                    viol.append((key, f"left behind: {sorted(extra)}; {kind} {val!r}"))
            outs[f"{name} {mode} {hit} {kind}"] = outs.get(f"{name} {mode} {hit} {kind}", 0) + 1
            if at == 0:
                total = ST["n"]
        at += 1
        if at > total:
            break
    return n, viol[:12], outs


# ------------------------------------------------------------- directory switching: all op trees
def cwd_case(v, depth):
    """all programs over {enter A/B/relative/missing, plain chdir, raise} up to the depth: after every
    scope exit the directory at its entry is current again, exceptions pass through"""
    from vmecpp import _util as U
    ops = ["A", "B", "rel", "missing", "chdir", "file"]
    ends = ["normal", "raise", "systemexit", "return"]
    viol, outs, n = [], {}, 0
    with world() as base:
        for d in ("A/rel/rel/rel", "B/rel/rel/rel", "cwd/rel/rel/rel/rel", "C"):
            (base / d).mkdir(parents=True, exist_ok=True)
        (base / "afile").write_text("x")
        for L in range(1, depth + 1):
            for prog in itertools.product(ops, repeat=L):
                for end in ends:
                    os.chdir(base / "cwd")
                    n += 1
                    trace = []
                    def rec(i):
                        if i == L:
                            if end == "raise":
                                raise KeyError("x")
                            if end == "systemexit":
                                raise SystemExit(3)
                            return "v"
                        op = prog[i]
                        if op == "chdir":
                            os.chdir(base / "C")
                            (base / "C/rel/rel/rel").mkdir(parents=True, exist_ok=True)
                            return rec(i + 1)
                        here = os.getcwd()
                        tgt = {"A": base / "A", "B": base / "B", "rel": P("rel"), "missing": base / "nope", "file": base / "afile"}[op]
                        want = os.path.realpath(tgt)
                        try:
                            with U.change_working_directory_to(tgt):
                                if os.getcwd() != want:
                                    trace.append(f"inside {op}: {os.getcwd()}")
                                return rec(i + 1)
                        finally:
                            if os.getcwd() != here:
                                trace.append(f"after {op}: {os.getcwd()} instead of {here}")
                    try:
                        r = rec(0)
                    except BaseException as e:  # noqa: BLE001
                        r = type(e).__name__
                    stop = [o for o in prog if o in ("missing", "file")]
                    exp = {"missing": "FileNotFoundError", "file": "NotADirectoryError"}.get(stop[0]) if stop else {"normal": "v", "return": "v", "raise": "KeyError", "systemexit": "SystemExit"}[end]
                    if "rel" in prog and r == "FileNotFoundError":
                        exp = r
                    if r != exp:
                        trace.append(f"outcome {r} instead of {exp}")
                    if trace:
                        viol.append((f"cwd {prog} {end}", trace))
                    outs[f"cwd {r}"] = outs.get(f"cwd {r}", 0) + 1
    return n, viol[:12], outs


# ------------------------------------------------------------- JSON -> INDATA content
def parse_namelist(t):
    """independent reader of the namelist subset: name[(n,m)] = value list"""
    import re
    body = t[t.index("&INDATA") + 7:]
    toks, i, lines = {}, 0, []
    out, ins, cur = [], False, ""
    j = 0
    while j < len(body):
        ch = body[j]
        if ins:
            cur += ch
            if ch == "'":
                if j + 1 < len(body) and body[j + 1] == "'":
                    cur += "'"
                    j += 1
                else:
                    ins = False
        elif ch == "'":
            ins = True
            cur += ch
        elif ch == "!":
            while j < len(body) and body[j] != "\n":
                j += 1
            continue
        elif ch == "\n":
            out.append(cur)
            cur = ""
        else:
            cur += ch
        j += 1
    if ins:
        raise ValueError("unterminated string")
    res = {}
    for ln in out:
        ln = ln.strip()
        if not ln:
            continue
        if ln == "/":
            break
        m = re.match(r"^(\w+)\s*(\(\s*(-?\d+)\s*,\s*(-?\d+)\s*\))?\s*=\s*(.*)$", ln)
        if not m:
            raise ValueError(f"not a namelist line: {ln!r}")
        k, val = m.group(1).lower(), m.group(5).strip()
        if val.startswith("'"):
            p = val[1:-1].replace("''", "'")
        elif val.lower() in (".true.", ".false."):
            p = val.lower() == ".true."
        else:
            p = [float(x) for x in val.split(",")]
        if m.group(2):
            res.setdefault(k, {})[int(m.group(3)), int(m.group(4))] = p[0]
        else:
            if k in res:
                raise ValueError("duplicate " + k)
            res[k] = p
    else:
        raise ValueError("no terminating /")
    return res


SC = {"bool": ["lasym", "lforbal", "lfreeb"], "int": ["nfp", "mpol", "ntor", "ntheta", "nzeta", "nstep", "ncurr", "nvacskip"],
      "float": ["delt", "tcon0", "phiedge", "pres_scale", "gamma", "spres_ped", "curtor", "bloat"], "str": ["pmass_type", "piota_type", "pcurr_type", "mgrid_file"],
      "ia": ["ns_array", "niter_array"], "fa": ["ftol_array", "aphi", "am", "am_aux_s", "am_aux_f", "ai", "ai_aux_s", "ai_aux_f", "ac", "ac_aux_s", "ac_aux_f", "extcur"],
      "ax": ["raxis_c", "zaxis_s", "raxis_s", "zaxis_c"], "fc": ["rbc", "zbs", "rbs", "zbc"]}
AX = {"raxis_c": "raxis_cc", "zaxis_s": "zaxis_cs", "raxis_s": "raxis_cs", "zaxis_c": "zaxis_cc"}
VALS = {"bool": [True, False], "int": [0, 1, -1, 12345], "float": [0.0, 1.0, -0.1, 1e-300, 1e300, 1 / 3, 12345678.987654321], "str": ["power_series", "", "it's", "a 'b' c", "/p/q r!s"],
        "ia": [[], [3], [5, 11, 55], None], "fa": [[], [0.1], [1e-10, -1 / 3, 0.0], None], "ax": [[], [1.5], [1.5, -0.1, 1e-9], None],
        "fc": [[], None, [{"m": 0, "n": 0, "value": 0.1}], [{"m": 1, "n": -2, "value": 1 / 3}, {"m": 0, "n": 3, "value": -1e-17}, {"m": 12, "n": 0, "value": 5}]]}


def content_case(v, _):
    from vmecpp import _util as U
    viol, n = [], 0
    docs = [{}]
    for k, names in SC.items():
        for nm in names:
            docs += [{nm: x} for x in VALS[k]]
    full = {nm: VALS[k][-1] if VALS[k][-1] is not None else VALS[k][-2] for k, names in SC.items() for nm in names}
    docs.append(full)
    for drop in full:
        docs.append({k: x for k, x in full.items() if k != drop})
    for f in sorted(P("/repo/examples/data").glob("*.json")) + sorted(P("/repo/src/vmecpp/cpp/vmecpp/test_data").glob("*.json")):
        try:
            d = json.loads(f.read_text())
        except ValueError:
            continue
        if isinstance(d, dict) and "rbc" in d:
            docs.append(d)
    kind = {nm: k for k, names in SC.items() for nm in names}
    for d in docs:
        n += 1
        key = "content " + str(sorted(d.items()))[:120]
        before = json.dumps(d)
        try:
            got = parse_namelist(U.vmecpp_json_to_indata(d))
        except Exception as e:  # noqa: BLE001
            viol.append((key, f"{type(e).__name__}: {e}"))
            continue
        if json.dumps(d) != before:
            viol.append((key, "document modified"))
        want = {}
        for nm, x in d.items():
            if nm not in kind or x is None or x == []:
                continue
            k = kind[nm]
            tgt = AX.get(nm, nm)
            if k == "fc":
                want[tgt] = {(e["n"], e["m"]): float(e["value"]) for e in x}
            elif k in ("bool", "str"):
                want[tgt] = x
            elif k in ("int", "float"):
                want[tgt] = [float(x)]
            else:
                want[tgt] = [float(y) for y in x]
        got = {k2: y for k2, y in got.items() if y != {}}
        if got != want:
            bad = [k2 for k2 in set(got) | set(want) if got.get(k2) != want.get(k2)]
            viol.append((key, f"differs in {bad}: got {[got.get(b) for b in bad][:2]} want {[want.get(b) for b in bad][:2]}"[:500]))
    # names
    for nm, w in [("a.json", "a"), ("input.a", "a"), ("wout_a.nc", "a"), ("input.a.b", "a.b"), ("a.b.json", "a.b"), ("wout_.nc", ""), ("x", None), ("wout_a", None), ("a.nc", None), ("input.wout_a.nc", "wout_a.nc"), ("Input.a", None)]:
        for pre in ("", "/tmp/input.dir/", "rel/wout_x.nc/"):
            n += 1
            try:
                g = U.get_vmec_configuration_name(P(pre + nm))
            except ValueError:
                g = None
            if g != w:
                viol.append((f"name {pre}{nm}", f"{g!r} instead of {w!r}"))
    # input kind detection
    with world() as base:
        for t, w in [("&INDATA\n", True), ("\n\n! c\n&INDATA\n", True), ("  &INDATA  \n/\n", True), ("{}", False), ("", False), ("! only\n", False), ("x\n&INDATA\n", False), ('{"a": "&INDATA"}', False), ("&INDATA2\n", False)]:
            n += 1
            p = base / "q"
            p.write_text(t)
            if v.is_vmec2000_input(p) is not w:
                viol.append((f"kind {t!r}", "misdetected"))
    return n, viol[:12], {"content": n}


def run():
    c = vlib.Check("Y03", "fault_enumeration", "17 helper scenarios x 6 converter behaviours x every file-system/process event as failing step (audit-hook injection); all directory-switch programs up to depth 3 (4) x 4 endings; every field x value of the JSON-to-INDATA conversion against an independent namelist reader",
                   ["the Fortran converter is replaced by a stand-in", "a failing removal may leave the removed thing behind; a failing directory switch may leave the directory"])
    vlib.build(["_vmecpp"])
    cases = [("content", None)] + [("cwd", d) for d in ([4] if c.thorough else [3])]
    modes = ["!ok", "!fail", "!partial", "!none", "!kill", "!mess"]
    cases += [("conv", (s, m)) for s in SCEN for m in (modes if s in CONV else ["!ok"])]
    fns = {"content": content_case, "cwd": cwd_case, "conv": conv_case}
    for cs, r in zip(cases, vlib.pmap(cases, lambda ctx, x: fns[x[0]](ctx, x[1]), init, timeout=250)):
        if r.kind != "ok":
            c.fail(f"case {cs}", r)
            continue
        n, viol, outs = r.value
        c.evaluations += n
        for k, x in outs.items():
            c.outcomes[k] = c.outcomes.get(k, 0) + x
        for k, d in viol:
            c.fail(k, d)
    c.sample("from_file_indata with the 7th event (shutil.copyfile) failing: working directory and input directory unchanged")
    c.cov.update({"fault_points": c.evaluations})
    return c


vlib.main(run)
