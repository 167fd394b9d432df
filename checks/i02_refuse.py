"""I02: every field of the base inputs x every defect of the alphabet (wrong kinds, limits, wrong sizes, inconsistent pairs, removed keys),
every prefix and every one-byte change of a document: parsed by the native reader and the scripting reader, and solved, on the real code
(native side under ASan/UBSan in a child per document).  Judged: no crash, abort or hang; what is accepted equals what was written;
what is documented as invalid is refused; left-out settings take their documented defaults."""
import copy, itertools, json, math, os, pathlib, struct, subprocess, sys, tempfile
import numpy as np
import vlib
TH = os.environ.get("VERIF_TIER") == "thorough"
P = pathlib.Path

SOL = {"lasym": False, "nfp": 1, "mpol": 3, "ntor": 0, "mpol_geometry": -1, "ntor_geometry": -1, "ntheta": 12, "nzeta": 1, "ns_array": [5], "ftol_array": [1e-7], "niter_array": [25], "phiedge": 1.0, "ncurr": 0,
       "pmass_type": "power_series", "am": [0.125, -0.125], "am_aux_s": [], "am_aux_f": [], "pres_scale": 1.0, "gamma": 0.0, "spres_ped": 1.0, "piota_type": "power_series", "ai": [1.0], "ai_aux_s": [], "ai_aux_f": [],
       "pcurr_type": "power_series", "ac": [1.0, 0.5], "ac_aux_s": [], "ac_aux_f": [], "curtor": 0.0, "bloat": 1.0, "lfreeb": False, "mgrid_file": "none", "extcur": [], "nvacskip": 2, "free_boundary_method": "nestor",
       "nstep": 5, "aphi": [1.0], "delt": 0.9, "tcon0": 1.0, "lforbal": False, "iteration_style": "vmec_8_52", "return_outputs_even_if_not_converged": True, "raxis_c": [4.0], "zaxis_s": [0.0],
       "rbc": [{"m": 0, "n": 0, "value": 3.999}, {"m": 1, "n": 0, "value": 1.026}, {"m": 2, "n": 0, "value": -0.068}],
       "zbs": [{"m": 0, "n": 0, "value": 0.0}, {"m": 1, "n": 0, "value": 1.58}, {"m": 2, "n": 0, "value": 0.01}]}
ELA = {**SOL, "lasym": True, "nfp": 3, "mpol": 3, "ntor": 1, "nzeta": 8, "ncurr": 1, "curtor": 1000.0, "raxis_c": [4.0, 0.1], "zaxis_s": [0.0, 0.1], "raxis_s": [0.0, 0.01], "zaxis_c": [0.02, 0.01],
       "rbc": SOL["rbc"] + [{"m": 1, "n": 1, "value": 0.1}], "zbs": SOL["zbs"] + [{"m": 1, "n": 1, "value": -0.1}], "rbs": [{"m": 1, "n": 0, "value": 0.02}], "zbc": [{"m": 1, "n": 1, "value": 0.03}]}
INT = ["nfp", "mpol", "ntor", "mpol_geometry", "ntor_geometry", "ntheta", "nzeta", "ncurr", "nvacskip", "nstep"]
BOOL = ["lasym", "lfreeb", "lforbal", "return_outputs_even_if_not_converged"]
DBL = ["phiedge", "pres_scale", "gamma", "spres_ped", "curtor", "bloat", "delt", "tcon0"]
STR = ["pmass_type", "piota_type", "pcurr_type", "mgrid_file", "free_boundary_method", "iteration_style"]
VI = ["ns_array", "niter_array"]
VD = ["ftol_array", "am", "am_aux_s", "am_aux_f", "ai", "ai_aux_s", "ai_aux_f", "ac", "ac_aux_s", "ac_aux_f", "extcur", "aphi", "raxis_c", "zaxis_s", "raxis_s", "zaxis_c"]
MAT = ["rbc", "zbs", "rbs", "zbc"]
ALL = INT + BOOL + DBL + STR + VI + VD + MAT
TYPES = ["power_series", "power_series_i", "gauss_trunc", "sum_atan", "two_lorentz", "two_power", "two_power_gs", "akima_spline", "cubic_spline", "akima_spline_i", "cubic_spline_i", "akima_spline_ip", "cubic_spline_ip", "line_segment", "line_segment_i", "line_segment_ip",
         "pedestal", "rational", "nice_quadratic", "sum_cossq_s", "sum_cossq_sqrts", "sum_cossq_s_free"]


class Raw(str):
    """JSON text put into the document as it is"""


def dumps(d):
    def enc(x):
        if isinstance(x, Raw):
            return str(x)
        if isinstance(x, dict):
            return "{" + ",".join(json.dumps(k) + ":" + enc(v) for k, v in x.items()) + "}"
        if isinstance(x, list):
            return "[" + ",".join(enc(v) for v in x) + "]"
        return json.dumps(x)
    return enc(d)


ANY = [None, True, False, 0, 1, -1, 2, 3, 2**31 - 1, -2**31, 2**31, 2**32 + 3, 2**53 + 1, 2**63, -2**63 - 1, Raw("1e400"), 0.5, 3.0, -1.5, 1e300, "", "5", "true", "x" * 300, [], [1], [[1]], [None], ["a"], {}, {"m": 0}, [{}], Raw("NaN"), Raw("Infinity"), Raw("1."), Raw("01"), Raw("'a'"), Raw("")]
SPEC = {
    **{k: [0, 1, 2, 3, 4, 5, -1, -2, 7] for k in INT},
    "phiedge": [0.0, -1.0, 1e-300, 1e300], "pres_scale": [-1e-9, 0.0, 1e12], "gamma": [1.0, 5 / 3, 2.0, 0.999999, -3.0], "spres_ped": [0.0, 1e-9, 0.5, 1.0000001, -1.0], "bloat": [0.0, 0.5, 2.0, -1.0],
    "delt": [0.0, 1e-300, 10.0, 10.1, -1.0], "tcon0": [-1e-9, 0.0, 1.0, 1.0001],
    "ns_array": [[], [2], [3], [3, 3], [5, 4], [3, 5], [0], [-3], [5, 5, 5, 5]],
    "niter_array": [[], [0], [1], [-1], [2**31 - 1], [5, 5], [1.5]],
    "ftol_array": [[], [0.0], [-1e-9], [1.0], [1e-6, 1e-6], [1e400]],
    **{k: [[], [0.0], [1.0] * 21, [1.0] * 22, [0.1] * 60, [-1.0, 2.0], [1e300, -1e300]] for k in ("am", "ai", "ac", "aphi", "extcur")},
    **{f"{p}_aux_{q}": [[0.0], [0.0, 1.0], [1.0, 0.0]] for p in ("am", "ai", "ac") for q in "sf"},
    **{k: [[], [4.0], [4.0, 0.1], [4.0, 0.1, 0.1], [0.0], [-4.0], [1e300]] for k in ("raxis_c", "zaxis_s", "raxis_s", "zaxis_c")},
    **{k: [[], [{"m": 0, "n": 0, "value": 1.0}], [{"m": 99, "n": 0, "value": 1.0}], [{"m": -1, "n": 0, "value": 1.0}], [{"m": 0, "n": -99, "value": 1.0}], [{"m": 0, "n": -2**31, "value": 1.0}], [{"m": 2**31 - 1, "n": 2**31 - 1, "value": 1.0}],
           [{"m": 0, "value": 1.0}], [{"n": 0, "value": 1.0}], [{"m": 0, "n": 0}], [{"m": 0.5, "n": 0, "value": 1.0}], [{"m": "0", "n": 0, "value": 1.0}], [{"m": 0, "n": 0, "value": "1"}], [{"m": 0, "n": 0, "value": None}], [{"m": 1, "n": 0, "value": -1.0}],
           [{"m": 1, "n": 0, "value": 1.0}, {"m": 1, "n": 0, "value": 2.0}], [{"m": 1, "n": 0, "value": 1e300}], {"m": 0, "n": 0, "value": 1.0}, [[1.0]], [{"m": 2**40, "n": 0, "value": 1.0}]] for k in MAT},
    "pmass_type": TYPES + ["POWER_SERIES", " power_series", "power", "none"], "piota_type": TYPES + ["bogus"], "pcurr_type": TYPES + ["bogus"],
    "mgrid_file": ["", "/", "/nonexistent/x.nc", "none", "NONE"], "free_boundary_method": ["nestor", "only_coils", "biest", "NESTOR", "bogus", ""], "iteration_style": ["vmec_8_52", "parvmec", "PARVMEC", "bogus", ""],
}
SZ = {"mpol_geometry", "ntor_geometry"}


def mutations():
    """(tag, base name, document or text)"""
    out = []
    for bn, b in (("sol", SOL), ("ela", ELA)):
        for k in b:
            for v in ANY + SPEC.get(k, []):
                if isinstance(v, int) and not isinstance(v, bool) and abs(v) > 2**20 and k in ("mpol", "ntor", "ntheta", "nzeta", "nfp") and v <= 2**31 - 1:
                    continue                    # (a resolution of 2^31 is a question of memory, see the limits in DESIGN.md)
                if k in ("ntheta", "nzeta", "mpol", "ntor") and v == 2**31 - 1:
                    continue
                out.append((f"{bn}.{k}={str(v)[:60]}", {**b, k: v}))
            out.append((f"{bn} without {k}", {q: x for q, x in b.items() if q != k}))
            out.append((f"{bn} {k} misspelled", {(q if q != k else q + "_"): x for q, x in b.items()}))
        # coupled defects
        for n in range(0, 4):
            for m in range(0, 4):
                for q in ("am", "ai", "ac"):
                    out.append((f"{bn} {q}_aux lengths {n},{m}", {**b, f"{q}_aux_s": list(np.linspace(0, 1, n)) if n else [], f"{q}_aux_f": [1.0] * m}))
        for t in TYPES:
            for fld, co in (("pmass_type", "am"), ("piota_type", "ai"), ("pcurr_type", "ac")):
                for co_v in ([], [1.0], [1.0] * 3, [1.0] * 5, [0.5] * 8, [0.3] * 21, [0.3] * 30):
                    out.append((f"{bn} {fld}={t} {co}[{len(co_v)}]", {**b, fld: t, co: co_v, "ncurr": 1 if co == "ac" else 0 if co == "ai" else b["ncurr"]}))
                for n in (0, 1, 2, 3, 4, 5, 6):
                    for knots in ((list(np.linspace(0, 1, n)) if n else []), [0.0] * n, list(np.linspace(1, 0, n)) if n else [], [0.5 + 0.1 * i for i in range(n)]):
                        if t.endswith(("spline", "_i", "_ip", "segment")):
                            out.append((f"{bn} {fld}={t} knots {[round(x, 2) for x in knots]}", {**b, fld: t, f"{co}_aux_s": knots, f"{co}_aux_f": [1.0 + 0.1 * i for i in range(n)], "ncurr": 1 if co == "ac" else 0 if co == "ai" else b["ncurr"]}))
        for mp, nt, th, ze in itertools.product((2, 3, 5), (0, 1, 2), (0, 1, 2, 3, 4, 7), (0, 1, 2, 3, 5)):
            out.append((f"{bn} mpol={mp} ntor={nt} ntheta={th} nzeta={ze}", {**b, "mpol": mp, "ntor": nt, "ntheta": th, "nzeta": ze, **{q: b[q][:nt + 1] for q in ("raxis_c", "zaxis_s", "raxis_s", "zaxis_c") if q in b}}))
        for mg, ng in itertools.product((-5, -1, 0, 1, 2, 3, 99), repeat=2):
            out.append((f"{bn} geometry {mg},{ng}", {**b, "mpol_geometry": mg, "ntor_geometry": ng}))
        for ns, th in itertools.product(([3], [3, 4], [3, 3, 7], [4, 9]), ("vmec_8_52", "parvmec")):
            out.append((f"{bn} ns={ns} {th}", {**b, "ns_array": ns, "ftol_array": [1e-6] * len(ns), "niter_array": [20] * len(ns), "iteration_style": th}))
        for m in ("", "none", "/", "/nonexistent", "@dir", "@empty", "@text", "@json", "@wout"):
            for fm in ("nestor", "only_coils", "biest"):
                out.append((f"{bn} free {m} {fm}", {**b, "lfreeb": True, "mgrid_file": m, "free_boundary_method": fm, "extcur": [1.0]}))
        out += [(f"{bn} boundary all zero", {**b, "rbc": [], "zbs": []}), (f"{bn} no axis", {**b, "raxis_c": [], "zaxis_s": []}),
                (f"{bn} duplicate key", Raw(dumps(b)[:-1] + ',"nfp":2}')), (f"{bn} twice", Raw(dumps(b) + dumps(b))), (f"{bn} BOM", Raw("\ufeff" + dumps(b))),
                (f"{bn} comment", Raw("/*x*/" + dumps(b))), (f"{bn} unknown key", {**b, "nonsense": 5}), (f"{bn} unknown nested", {**b, "nonsense": {"a": [1, {"b": None}]}}),
                (f"{bn} deep", Raw(dumps(b)[:-1] + ',"x":' + "[" * 3000 + "]" * 3000 + "}"))]
        if TH:
            ks = INT + ["ns_array", "lfreeb", "lasym", "iteration_style"]
            vals = {**{k: [0, 1, 2, 3, 4, -1] for k in INT}, "ns_array": [[3], [4], [5, 5], [2]], "lfreeb": [True], "lasym": [True, False], "iteration_style": ["parvmec"]}
            for a, c in itertools.combinations(ks, 2):
                for x, y in itertools.product(vals[a], vals[c]):
                    out.append((f"{bn} {a}={x} {c}={y}", {**b, a: x, c: y}))
    for t in ("", " ", "null", "[]", "{}", "5", '"x"', "[{}]", "{", "}", "{]", '{"a"', "\0", "\xff", "nul", "{} x"):
        out.append((f"text {t!r}", Raw(t)))
    return out


def texts(base):
    """every prefix of a document and every one-byte change of its skeleton"""
    b = {k: base[k] for k in ("lasym", "nfp", "mpol", "ntor", "ns_array", "ftol_array", "niter_array", "phiedge", "delt", "raxis_c", "zaxis_s", "rbc", "zbs", "pmass_type") if k in base}
    s = dumps(b)
    out = [(f"prefix {n}", Raw(s[:n])) for n in range(len(s))]
    for i in range(len(s)):
        for ch in ('"', "{", "[", ",", ":", "-", "9", "e", ".", " ", "\0", "x") if TH else ('"', "{", ",", "-", "9", "."):
            if s[i] != ch:
                out.append((f"byte {i} -> {ch!r}", Raw(s[:i] + ch + s[i + 1:])))
    return out


DEFAULTS = {"lasym": False, "nfp": 1, "mpol": 6, "ntor": 0, "mpol_geometry": -1, "ntor_geometry": -1, "ntheta": 0, "nzeta": 0, "ns_array": [31], "ftol_array": [1e-10], "niter_array": [100], "phiedge": 1.0, "ncurr": 0, "pmass_type": "power_series", "am": [], "am_aux_s": [], "am_aux_f": [],
            "pres_scale": 1.0, "gamma": 0.0, "spres_ped": 1.0, "piota_type": "power_series", "ai": [], "ai_aux_s": [], "ai_aux_f": [], "pcurr_type": "power_series", "ac": [], "ac_aux_s": [], "ac_aux_f": [], "curtor": 0.0, "bloat": 1.0, "lfreeb": False, "mgrid_file": "NONE", "extcur": [],
            "nvacskip": 1, "free_boundary_method": "nestor", "nstep": 10, "aphi": [1.0], "delt": 1.0, "tcon0": 1.0, "lforbal": False, "iteration_style": "vmec_8_52", "return_outputs_even_if_not_converged": False}


def num(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)


def expect(d, k):
    """value of field k that a document asks for, or Bad"""
    if k not in d:
        return ("default",)
    v = d[k]
    if k in INT:
        return ("v", v) if num(v) and abs(v) <= 2**31 and v == int(v) and v != 2**31 else ("bad",)
    if k in BOOL:
        return ("v", v) if isinstance(v, bool) else ("bad",)
    if k in DBL:
        return ("v", float(v)) if num(v) and abs(v) < 1e308 * 1.7 else ("bad",)
    if k in STR:
        return ("v", v) if isinstance(v, str) else ("bad",)
    if k in VI + VD:
        if not isinstance(v, list) or not all(num(x) for x in v) or (k in VI and not all(abs(x) < 2**31 and x == int(x) for x in v)):
            return ("bad",)
        return ("v", list(v)) if all(math.isfinite(x) for x in v) else ("bad",)
    mp, nt = d.get("mpol", 6), d.get("ntor", 0)
    if not (num(mp) and num(nt) and 0 < mp < 1000 and 0 <= nt < 1000 and mp == int(mp) and nt == int(nt)):
        return ("bad",)
    mp, nt = int(mp), int(nt)
    m = np.zeros((mp, 2 * nt + 1))
    if not isinstance(v, list):
        return ("bad",)
    for e in v:
        if not isinstance(e, dict):
            return ("bad",)
        if not {"m", "n", "value"} <= set(e):
            continue
        if not (num(e["m"]) and num(e["n"]) and num(e["value"]) and math.isfinite(e["value"]) and int(e["m"]) == e["m"] and int(e["n"]) == e["n"] and -2**31 <= min(e["m"], e["n"]) and max(e["m"], e["n"]) < 2**31):
            return ("bad",)
        if 0 <= e["m"] < mp and abs(e["n"]) <= nt:
            m[int(e["m"]), int(e["n"]) + nt] = e["value"]
    return ("v", m)


def must_refuse(d):
    """documented constraints that the document violates (values of the right kind)"""
    g = lambda k: d.get(k, DEFAULTS.get(k))
    r = []
    if g("nfp") <= 0: r.append("nfp")
    if g("mpol") < 2: r.append("mpol")
    if g("ntor") < 0: r.append("ntor")
    if g("ntheta") < 0: r.append("ntheta")
    if g("nzeta") < 0: r.append("nzeta")
    ns, ft, ni = g("ns_array"), g("ftol_array"), g("niter_array")
    if not ns or min(ns) < 3 or any(b < a for a, b in zip(ns, ns[1:])): r.append("ns_array")
    if len(ft) != len(ns) or any(x < 0 for x in ft[:len(ns)]): r.append("ftol_array")
    if len(ni) != len(ns) or any(x <= 0 for x in ni[:len(ns)]): r.append("niter_array")
    if g("phiedge") == 0: r.append("phiedge")
    if g("ncurr") not in (0, 1): r.append("ncurr")
    if g("pres_scale") < 0: r.append("pres_scale")
    if g("gamma") == 1: r.append("gamma")
    if not 0 < g("spres_ped") <= 1: r.append("spres_ped")
    if g("ncurr") == 0 and g("bloat") != 1: r.append("bloat")
    if g("nvacskip") < (1 if g("lfreeb") else 0): r.append("nvacskip")
    if g("lfreeb") and g("free_boundary_method") not in ("nestor", "only_coils"): r.append("free_boundary_method")
    if g("free_boundary_method") not in ("nestor", "only_coils", "biest"): r.append("free_boundary_method")
    if g("iteration_style") not in ("vmec_8_52", "parvmec"): r.append("iteration_style")
    if g("nstep") <= 0: r.append("nstep")
    if not 0 < g("delt") <= 10: r.append("delt")
    if not 0 <= g("tcon0") <= 1: r.append("tcon0")
    for q in ("raxis_c", "zaxis_s") + (("raxis_s", "zaxis_c") if g("lasym") else ()):
        if q in d and len(d[q]) > g("ntor") + 1: r.append(q)
    for q in ("am", "ai", "ac"):
        if len(g(f"{q}_aux_s")) != len(g(f"{q}_aux_f")): r.append(f"{q}_aux")
    for q in MAT[:2] + (MAT[2:] if g("lasym") else []):
        if q in d and any(e["m"] < 0 for e in d[q] if {"m", "n", "value"} <= set(e)): r.append(q)
    return r


class Ctx:
    pass


def init():
    c = Ctx()
    c.v, c.x = vlib.load_vmecpp(), vlib.load_ext("x_indata")
    import equil as E
    E.quiet()
    return c


ENUM = {"free_boundary_method": ["nestor", "only_coils", "biest"], "iteration_style": ["vmec_8_52", "parvmec"]}


def as_py(x):
    return x.tolist() if isinstance(x, np.ndarray) else getattr(x, "value", x)


def compare(d, get, who, strict_asym):
    """get(k) -> value of the accepted input"""
    bad = []
    for k in ALL:
        if k in ("raxis_s", "zaxis_c", "rbs", "zbc") and not d.get("lasym", False):
            continue
        e = expect(d, k)
        try:
            got = get(k)
        except KeyError:
            continue
        if e[0] == "bad":
            if d[k] is None and k in DEFAULTS and same(got, DEFAULTS[k]):
                continue                       # null stands for "not given"
            bad.append((f"{who} {k}", f"{d[k]!r} was accepted as {short(got)}"))
        elif e[0] == "default":
            if k in DEFAULTS and not same(got, DEFAULTS[k]):
                bad.append((f"{who} default {k}", f"{short(got)} instead of {DEFAULTS[k]!r}"))
        else:
            want = e[1]
            if k in ("raxis_c", "zaxis_s", "raxis_s", "zaxis_c"):
                want = list(want) + [0.0] * (d.get("ntor", 0) + 1 - len(want))
            if not same(got, want):
                bad.append((f"{who} {k}", f"{str(d[k])[:200]} became {short(got)}"))
    return bad


def same(a, b):
    a, b = as_py(a), as_py(b)
    if isinstance(b, list) or isinstance(a, list):
        try:
            x, y = np.asarray(a, float), np.asarray(b, float)
        except Exception:
            return False
        return x.shape == y.shape and bool(np.all(x == y)) or (x.size == 0 and y.size == 0)
    return type(a) is type(b) and a == b or (num(a) and num(b) and a == b)


def short(x):
    return repr(as_py(x))[:120]


def work(c, case):
    tag, doc, files = case
    text = doc if isinstance(doc, Raw) else dumps(doc)
    d = None
    try:
        d = json.loads(text[1:] if text[:1] == "\ufeff" else text)
        if not isinstance(d, dict):
            d = None
    except Exception:
        pass
    bad, acc = [], [None, None]
    # native reader
    try:
        n = c.x.from_json(text)
        acc[0] = True
    except Exception:
        n, acc[0] = None, False
    if n is not None:
        if d is None:
            if text.strip() not in ("{}", "null"):
                bad.append(("native", f"text that is no JSON object was accepted: {text[:120]!r}"))
        else:
            def get(k):
                v = n[k]
                return ENUM[k][int(v)] if k in ENUM else v
            bad += compare(d, get, "native", True)
            if not bad:
                m = must_refuse(d)
                if m:
                    bad.append((f"native accepts {m[0]}", f"invalid {m} accepted"))
    elif d is not None and all(expect(d, k)[0] != "bad" for k in ALL if k in d) and not must_refuse(d) and tag.split()[-1] != "deep" and "NaN" not in tag and "Infinity" not in tag:
        ra = [q for q in ("rbc", "zbs") if q not in d]
        ints = any(isinstance(x, float) for k in INT + VI if k in d for x in (d[k] if isinstance(d[k], list) else [d[k]])) or any(isinstance(e.get(q), float) for k in MAT if k in d for e in d[k] for q in "mn")
        if not ra and not ints and d.get("lasym", False) | (not any(q in d for q in ("raxis_s", "zaxis_c", "rbs", "zbc"))):
            bad.append(("native refuses", "a valid document was refused"))
    # scripting reader
    with tempfile.TemporaryDirectory() as t:
        p = P(t) / "in.json"
        p.write_text(text, encoding="utf8", errors="surrogatepass")
        try:
            i = c.v.VmecInput.from_file(p)
            acc[1] = True
        except Exception:
            i, acc[1] = None, False
        if i is not None and d is not None:
            def get2(k):
                if not hasattr(i, k):
                    raise KeyError(k)
                v = getattr(i, k)
                if v is None:
                    raise KeyError(k)
                return v
            b2 = compare_py(d, i, get2)
            bad += b2
        if p.read_text(encoding="utf8", errors="surrogatepass") != text:
            bad.append(("input file", "changed by reading it"))
    return bad, tuple(acc), text


def compare_py(d, i, get):
    """the scripting model may convert (pydantic), but numbers must stay the same numbers"""
    bad = []
    for k in ALL:
        if k not in d or not hasattr(i, k) or getattr(i, k) is None:
            continue
        e = expect(d, k)
        if k in ("raxis_s", "zaxis_c", "rbs", "zbc") and not d.get("lasym", False):
            continue
        if k in MAT and d.get("lasym", False) is None:
            continue
        got = get(k)
        if e[0] == "v":
            want = e[1]
            if k in ("raxis_c", "zaxis_s", "raxis_s", "zaxis_c"):
                want = list(want) + [0.0] * (np.size(got) - len(want))
            if not same(got, want):
                bad.append((f"scripting {k}", f"{str(d[k])[:200]} became {short(got)}"))
        elif k in DBL + INT + BOOL:
            # accepted although of another kind: only lossless conversions
            try:
                ok = float(d[k]) == float(got)
            except Exception:
                ok = d[k] is None or (isinstance(d[k], str) and str(d[k]).lower() in ("true", "false", "5"))
            if not ok:
                bad.append((f"scripting {k}", f"{d[k]!r} was accepted as {short(got)}"))
    return bad


def run():
    chk = vlib.Check("I02", "exploration", "2 base inputs x every field x ~40 values of every kind + field-specific limits; coupled sizes; all profile types x coefficient counts x knots; resolutions; every prefix and byte change of a document (thorough: pairs of fields)",
                     ["resolutions that only exhaust memory are not enumerated", "the solver is run with 1 thread and at most a few iterations"])
    vlib.build(["_vmecpp", "x_indata"])
    d = vlib.build(["h_run"], "asan")
    muts = mutations()
    txt = texts(SOL)
    with vlib.scratch() as s:
        s = P(s)
        (s / "dir").mkdir(), (s / "empty").write_text(""), (s / "text").write_text("hello\n" * 50), (s / "json").write_text("{}")
        w = next(vlib.REPO.glob("src/**/test_data/wout_solovev.nc"))
        (s / "wout").write_bytes(w.read_bytes())
        for t, doc in muts:
            if isinstance(doc, dict) and isinstance(doc.get("mgrid_file"), str) and doc["mgrid_file"].startswith("@"):
                doc["mgrid_file"] = str(s / doc["mgrid_file"][1:])
        cases = muts + txt
        acc = {}
        for (t, doc), r in zip(cases, vlib.pmap([(t, doc, None) for t, doc in cases], work, init)):
            chk.evaluations += 1
            if r.kind != "ok":
                chk.fail(f"reader {r.kind} {t.split('=')[0]}", f"{t}: {r.value}", {"doc": str(doc)[:3000]})
                continue
            bad, a, text = r.value
            acc[t] = a
            chk.seen((t.split("=")[0].split(" ")[0], a))
            for k, m in bad:
                chk.fail(k, f"{t}: {m}", {"doc": text})
        # native parse and solve, in children, with sanitizers
        allc = [(t, doc if isinstance(doc, Raw) else dumps(doc)) for t, doc in cases]
        f = s / "docs"
        with open(f, "wb") as o:
            for t, x in allc:
                b = x.encode("utf8", "surrogatepass")
                o.write(struct.pack("I", len(b)) + b)
        env = dict(os.environ, ASAN_OPTIONS="abort_on_error=1:detect_leaks=0:allocator_may_return_null=1", UBSAN_OPTIONS="abort_on_error=1:print_stacktrace=1", OMP_NUM_THREADS="1", OMP_STACKSIZE="64M")
        N, SEC = 8, 60
        ps = [subprocess.Popen([d / "h_run", f, str(i), str(N), str(SEC), s / "err", "1"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env) for i in range(N)]
        res = {}
        for p in ps:
            o, _ = p.communicate()
            if not o.endswith("DONE\n"):
                chk.fail("harness", f"h_run stopped early: {o[-300:]}")
            for l in o.splitlines():
                if l != "DONE":
                    i, _, r = l.partition(" ")
                    res[int(i)] = r
        runs = 0
        for i, (t, x) in enumerate(allc):
            r = res.get(i, "missing")
            chk.evaluations += 1
            if "parse=" not in r:
                e = (s / f"err.{i}")
                msg = e.read_text(errors="replace") if e.exists() else ""
                hang = "signal 14" in r
                line = [q for q in msg.splitlines() if "ERROR" in q or "runtime error" in q or "Check failed" in q or "terminate" in q or " F" in q[:3]]
                top = [q.strip() for q in msg.splitlines() if q.strip().startswith("#") and "/src/vmecpp/" in q][:2]
                chk.fail(f"{'hang' if hang else 'crash'} {t.split('=')[0]}", f"{t}: {r} {line[:1]} {top} {msg[-300:] if not line else ''}", {"doc": x})
                continue
            q = r.split()
            chk.seen((t.split("=")[0].split(" ")[0], q[0], q[1]))
            if q[1] == "run=ok":
                runs += 1
                if q[3:5] != q[7:9] or (q[2] != q[6] and '"ns_array":[' in x and "," not in x.split('"ns_array":[')[1].split("]")[0]):
                    chk.fail("resolution of the result", f"{t}: {r}", {"doc": x})
    chk.cov.update({"documents": len(cases), "accepted_by_native": sum(1 for a in acc.values() if a[0]), "accepted_by_scripting": sum(1 for a in acc.values() if a[1]), "solved": runs})
    return chk


vlib.main(run)
