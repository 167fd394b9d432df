"""F01: coil files and coil descriptions are interpreted faithfully.

Bounded exhaustive exploration of the real parser and of the operations on coil descriptions:
 A. every file of up to N filaments over a small alphabet of shapes, circuit numbers and windings;
 B. every way to lay one file out (separators, line ends, blank lines, order of header lines, several sections);
 C. every single-token replacement, deletion, duplication, every line deletion/duplication/swap and every byte prefix of
    reference files;
 D. every sequence of up to K operations on descriptions, compared with an executable specification.
Oracle: an independent reader (spec) written from the documented file format; it says 'ok' (exact structure expected),
'err' (must be refused) or 'either' (an error or exactly this structure).
"""
import itertools
import json
import math
import pathlib
import re
import vlib

NUM = re.compile(r"[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?$")
FORT = re.compile(r"[+-]?(\d+\.?\d*|\.\d+)[dD][+-]?\d+$")
INT = re.compile(r"[+-]?\d+$")


class Bad(Exception):
    pass


class Lenient(Exception):
    pass


def num(t, soft):
    if NUM.match(t):
        x = float(t)
        if math.isinf(x) or (x == 0.0 and re.search(r"[1-9]", re.split("[eE]", t)[0])):
            soft.append(t)
        return x
    if FORT.match(t):
        soft.append(t)
        return float(re.sub("[dD]", "e", t))
    if re.match(r"[+-]?(nan|inf|infinity)$", t, re.I):
        soft.append(t)
        return float(t)
    if re.match(r"[+-]?0[xX][0-9a-fA-F]+$", t):
        soft.append(t)
        return float(int(t, 16))
    raise Bad(t)


def integer(t):
    if INT.match(t) and -2**31 <= int(t) < 2**31:
        return int(t)
    raise Bad(t)


def spec(text):
    soft, nfp, circuits, ids, inside, pts, seen = [], None, [], {}, False, [], False
    try:
        for raw in text.split("\n"):
            line = raw.strip(" \t\r\n\v\f")
            if not inside:
                if line.startswith("periods"):
                    p = line.split()
                    if len(p) != 2:
                        raise Bad(line)
                    if p[0] != "periods":
                        soft.append(line)
                    nfp = integer(p[1])
                elif line.startswith("begin filament"):
                    inside = seen = True
                    if line != "begin filament":
                        soft.append(line)
                elif line:
                    soft.append(line)            # text outside the sections is not interpreted
                continue
            if line.startswith("mirror"):
                if not re.match(r"mirror\s+(nil|nul)$", line, re.I):
                    if re.search("(nil|nul)$", line, re.I):
                        soft.append(line)
                    else:
                        raise Bad(line)
                continue
            if line.startswith("end"):
                if line != "end":
                    soft.append(line)
                if pts:
                    raise Bad("vertices of an unfinished filament")
                inside = False
                continue
            t = line.split()
            if len(t) not in (4, 6):
                raise Bad(line)
            pts.append([num(x, soft) for x in t[:4]])
            if len(t) == 6:
                k, name = integer(t[4]), t[5]
                if k not in ids:
                    ids[k] = len(circuits)
                    circuits.append([1.0, []])
                w = pts[0][3]
                if len(pts) == 1:
                    if pts[0][1] != 0.0:
                        soft.append(line)
                    car = ("circle", name, pts[0][0], (0.0, 0.0, pts[0][2]), (0.0, 0.0, 1.0))
                else:
                    if any(not p[3] == w for p in pts[1:-1]):
                        raise Bad("windings")
                    if pts[-1][3] != 0.0 and pts[-1][3] != w:
                        soft.append(line)
                    car = ("polygon", name, tuple(tuple(p[:3]) for p in pts))
                circuits[ids[k]][1].append((w, (car,)))
                pts = []
        if inside:
            raise Bad("no end")
    except Bad as e:
        return "err", str(e)
    if not seen:
        soft.append("no section")
    return ("either" if soft else "ok"), (nfp, tuple((c, tuple(k)) for c, k in circuits))


def rep(x):
    return repr(x)      # floats compare exactly, including -0.0 and nan


def mkfile(fil, nfp="5", head="begin filament\nmirror NIL", sep=" ", eol="\n"):
    """fil: list of (shape, circuit, windings)."""
    out = [f"periods{sep}{nfp}"] + head.split("\n")
    for i, (shape, cid, w) in enumerate(fil):
        n = {"c": 1, "p2": 2, "p3": 3, "p4": 4}[shape]
        for j in range(n):
            x = [f"{1.5 + i + 0.25 * j:.10e}", "0.0" if n == 1 else f"{-0.5 * j + 0.125 * i:.17g}", f"{0.1 * (j + 1) - i:.17g}"]
            if shape == "p4" and j == 3:
                x = [f"{1.5 + i:.10e}", f"{0.125 * i:.17g}", f"{0.1 - i:.17g}"]        # closed polygon
            last = j == n - 1
            out.append(sep.join(x + ([w] if (not last or n == 1) else ["0.0"]) + ([cid, f"f{i}"] if last else [])))
    return eol.join(out + ["end", ""])


REFS = [mkfile([("p3", "1", "2.5"), ("c", "2", "-3"), ("p2", "1", "1e3")]),
        mkfile([("p4", "7", "-16.0"), ("p3", "7", "96"), ("c", "-1", "1")], nfp="1", sep="\t"),
        mkfile([("c", "1", "1.0"), ("c", "1", "0.5")], nfp="2", head="mirror NUL\nbegin filament")]
TOK = ["", "abc", "1.0x", "1.5", "-2", "1e5", "1.0D+05", "1e999", "1e-400", "nan", "0x10", "--1", "1,5", "7", "99999999999", "a b", "end", "."]


def gen_A(thorough):
    shapes, ids, ws = ["c", "p2", "p4"], ["1", "2", "-7"], ["1.0", "-2.5", "96"]
    f = [(s, c, w) for s in shapes for c in ids for w in ws]
    for n in range(0, 4 if thorough else 3):
        for fs in itertools.product(f, repeat=n):
            yield "A", mkfile(list(fs))
    g = [(s, c, "1.0") for s in ("c", "p3") for c in ("1", "2", "3")]
    for fs in itertools.product(g, repeat=5 if thorough else 4):
        yield "A4", mkfile(list(fs))


def gen_B():
    base = [("p3", "1", "2.0"), ("c", "2", "1"), ("p2", "1", "-2.0")]
    for sep in (" ", "\t", "   ", " \t "):
        for eol in ("\n", "\r\n", "  \n", "\n   "):
            for head in ("begin filament\nmirror NIL", "begin filament", "begin filament\nmirror NUL", "begin filament\nmirror nil",
                         "comment\nbegin filament\nmirror NIL", "\nbegin filament", "begin filament\nmirror XY", "begin filament\nmirror"):
                yield "B", mkfile(base, sep=sep, eol=eol, head=head)
    f = [("c", "1", "2.0"), ("p2", "2", "3"), ("c", "2", "5")]
    for n1 in range(3):
        for n2 in range(1, 4):
            for perm in itertools.permutations(f, 3):
                a, b = mkfile(list(perm)[:n1]), mkfile(list(perm)[-n2:])
                yield "B2", a + b
                yield "B2", a + b[b.index("begin"):]
    yield "B3", ""
    yield "B3", "\n"
    yield "B3", "begin filament"
    yield "B3", "begin filament\nend"


def gen_C(thorough):
    for r, ref in enumerate(REFS):
        lines = ref.split("\n")
        for i in range(len(lines)):
            yield "C", "\n".join(lines[:i] + lines[i + 1:])
            yield "C", "\n".join(lines[:i + 1] + lines[i:])
            for j in range(i):
                m = list(lines)
                m[i], m[j] = m[j], m[i]
                yield "C", "\n".join(m)
            toks = re.split(r"([ \t]+)", lines[i])
            for k in range(0, len(toks), 2):
                for t in TOK:
                    yield "C", "\n".join(lines[:i] + ["".join(toks[:k] + [t] + toks[k + 1:])] + lines[i + 1:])
                yield "C", "\n".join(lines[:i] + ["".join(toks[:k + 1] + [" "] + toks[k:])] + lines[i + 1:])
        for n in range(len(ref)):
            yield "C2", ref[:n]
        if thorough:
            for n in range(len(ref)):
                for ch in "\0x9.- \n":
                    yield "C3", ref[:n] + ch + ref[n + 1:]


# ---- operations on descriptions --------------------------------------------------------------------------------------------
C0 = ("circle", "a", 1.5, (0.0, 0.0, 0.25), (0.0, 0.0, 1.0))
C1 = ("circle", "b", 2.0, (0.5, 0.0, 0.0), (0.0, 0.0, 1.0))       # off axis: cannot be moved
C2 = ("circle", "t", 2.0, (0.0, 0.0, 0.0), (0.0, 1.0, 1.0))       # tilted: cannot be moved
P0 = ("polygon", "p", ((1.0, 0.0, 0.0), (0.0, 2.0, 1.0), (-3.0, -4.0, 0.5), (1.0, 0.0, 0.0)))
L0 = ("line", "l", (0.0, 0.0, 0.0), (0.0, 0.0, 1.0))
N0 = ("none",)
CONF = [(5, ((2.0, ((3.0, (C0,)), (-6.0, (P0,)))), (0.5, ((1.0, (P0,)),)))),
        (1, ((1.0, ((-4.0, (P0, C0)), (-4.0, (C0,)))),)),
        (None, ((None, ((2.0, (C0,)),)), (-1.5, ((None, (P0,)),)))),
        (3, ((1.0, ((1.0, (C0,)), (1.0, (C1,)))),)),
        (3, ((1.0, ((1.0, (C2,)),)),)),
        (2, ((1.0, ((0.0, (C0,)), (2.0, (C0,)))),)),
        (2, ((1.0, ((5.0, (L0,)),)),)),
        (2, ((1.0, ((5.0, (N0, C0)),)),)),
        (2, ((1.0, ()), (3.0, ((2.0, (C0,)),)))),
        (2, ())]


def move_one(c, d):
    if c[0] == "circle":
        if c[3][:2] != (0.0, 0.0) or c[4][:2] != (0.0, 0.0) or c[4][2] == 0:
            raise Bad("circle")
        return (*c[:2], c[2] + d, *c[3:])
    if c[0] == "polygon":
        v = []
        for x, y, z in c[2]:
            r, p = math.hypot(x, y), math.atan2(y, x)
            v.append(((r + d) * math.cos(p), (r + d) * math.sin(p), z))
        return (*c[:2], tuple(v))
    if c[0] == "line":
        raise Bad("line")
    return c


def apply(conf, op):
    """-> (must_fail, conf) ; conf None: unspecified after the failure."""
    nfp, cs = conf
    cur = [c[0] for c in cs]
    if op[0] == "set":
        if len(op[1]) != len(cs):
            return "err", conf
        return "ok", (nfp, tuple((x, c[1]) for x, c in zip(op[1], cs)))
    if op[0] == "get":
        return "get", conf
    if op[0] == "fold":
        out = []
        for c in cs:
            if c[0] is None or not c[1] or any(k[0] is None for k in c[1]) or c[1][0][0] == 0.0:
                return "unspec", None
            w = c[1][0][0]
            out.append((c[0] * w, tuple((k[0] / w, k[1]) for k in c[1])))
        return "ok", (nfp, tuple(out))
    d = op[1]
    try:
        return "ok", (nfp, tuple((c[0], tuple((k[0], tuple(move_one(a, d) for a in k[1])) for k in c[1])) for c in cs))
    except Bad:
        return "err", None


def close(a, b, tol=1e-13):
    if isinstance(a, float) and isinstance(b, float):
        return (a == b) or (math.isnan(a) and math.isnan(b)) or abs(a - b) <= tol * max(1.0, abs(a))
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(close(x, y, tol) for x, y in zip(a, b))
    return a == b


def finite(x):
    if isinstance(x, float):
        return math.isfinite(x)
    if isinstance(x, (tuple, list)):
        return all(finite(y) for y in x)
    return True


def init():
    return vlib.load_ext("x_coils")


def run_texts(X, batch):
    out = []
    for k, t in batch:
        try:
            got = ("ok", rep(X.parse(t)))
        except Exception as e:  # noqa: BLE001
            got = ("err", type(e).__name__)
        out.append(got)
    return out


def run_ops(X, batch):
    out = []
    for conf, ops in batch:
        try:
            out.append(("ok", [(e is None, c, None if x is None else [float(y) for y in x]) for e, c, x in X.ops(conf, list(ops))]))
        except Exception as e:  # noqa: BLE001
            out.append(("exc", repr(e)))
    return out


def run_params(X, batch):
    out = []
    for fn, s in batch:
        try:
            out.append(("ok", getattr(X, fn)(s)))
        except Exception as e:  # noqa: BLE001
            out.append(("err", repr(e)[:100]))
    return out


def chunks(x, n):
    for i in range(0, len(x), n):
        yield x[i:i + n]


def blame(chk, part, key, batch, res, fn):
    """A batch died: find the member."""
    for b, r in zip(batch, vlib.pmap([[b] for b in batch], fn, init, timeout=60)):
        if r.kind != "ok":
            chk.fail(f"{part}:{key(b)}", f"{r.kind}: {str(r.value)[-300:]}", {"part": part, "case": repr(b)})
            return
    chk.fail(f"{part}:batch", f"{res.kind}: {str(res.value)[-300:]}", {"part": part, "case": "batch"})


def run():
    chk = vlib.Check("F01", "exploration",
                     "all coil files of up to 2 (3) filaments over 27 filament kinds and up to 4 (5) over 6 kinds; all layouts of one file; all token, line and "
                     "prefix mutations of three files; all sequences of up to 3 (4) operations on ten coil descriptions; all key mutations and prefixes of a "
                     "grid-parameter document; against an independent reader of the documented format", [])
    with vlib.scratch("f01") as tmp:
        explore(chk, chk.thorough, tmp)
    return chk


def explore(chk, thorough, tmp):
    vlib.build(["x_coils"])
    texts = list(gen_A(thorough)) + list(gen_B()) + list(gen_C(thorough))
    texts = list(dict.fromkeys(texts))
    want = [spec(t) for _, t in texts]
    parts = {"ok": 0, "err": 0, "either": 0}
    bs = list(chunks(list(zip(texts, want)), 200))
    for b, r in zip(bs, vlib.pmap([[t for t, _ in b] for b in bs], run_texts, init, timeout=120)):
        if r.kind != "ok":
            blame(chk, "parse", lambda x: repr(x[1])[-120:], [t for t, _ in b], r, run_texts)
            continue
        for ((part, t), (w, st)), (g, val) in zip(b, r.value):
            parts[w] += 1
            chk.seen(f"parse:{part}")
            if g == "err":
                if w == "ok":
                    chk.fail(f"parse:{part}", f"refused a well-formed file: {val}", {"text": t})
            elif w == "err":
                chk.fail(f"parse:{part}", f"accepted a malformed file ({st}); gave {val[:200]}", {"text": t})
            elif val != rep(st):
                chk.fail(f"parse:{part}", f"wrong structure: got {val[:300]} want {rep(st)[:300]}", {"text": t})
    chk.cov["expected"] = dict(parts)
    # operation sequences
    depth = 4 if thorough else 3
    seqs = []
    for conf in CONF:
        n = len(conf[1])
        al = [("set", [10.0 * (i + 1) * (-1) ** i for i in range(n)]), ("set", [0.0] * n), ("set", [1.0] * (n + 1)), ("fold",), ("move", 0.25),
              ("move", -0.5), ("get",)]
        for k in range(1, depth + 1):
            seqs += [(conf, s) for s in itertools.product(al, repeat=k)]
    bs = list(chunks(seqs, 200))
    nops = 0
    for b, r in zip(bs, vlib.pmap(bs, run_ops, init, timeout=120)):
        if r.kind != "ok":
            blame(chk, "ops", lambda x: f"conf{CONF.index(x[0])}:" + ",".join(o[0] for o in x[1]), b, r, run_ops)
            continue
        for (conf, ops), (g, res) in zip(b, r.value):
            key = f"ops:conf{CONF.index(conf)}"
            chk.seen(key)
            if g != "ok":
                chk.fail(key, f"exception {res} for {ops}", {"conf": repr(conf), "ops": repr(ops)})
                continue
            st = conf
            for i, (op, (good, after, extra)) in enumerate(zip(ops, res)):
                nops += 1
                w, nx = apply(st, op)
                d = {"conf": repr(conf), "ops": repr(ops[:i + 1])}
                if w == "get":
                    cur = [c[0] for c in st[1]]
                    if good and not all(x is None or x == y for x, y in zip(cur, extra)):
                        chk.fail(key + ":get", f"currents {extra} want {cur}", d)
                    if not good and all(c[0] is not None and all(k[0] is not None for k in c[1]) for c in st[1]) and "line" not in repr(st) and "none" not in repr(st):
                        chk.fail(key + ":get", "currents of a complete description refused", d)
                    if not close(after, st, 0):
                        chk.fail(key + ":get", "reading the currents changed the description", d)
                elif w == "unspec":
                    if good and not finite(after):
                        chk.fail(key + ":" + op[0], f"accepted and gave {after}", d)
                    break
                elif w == "err":
                    if good:
                        chk.fail(key + ":" + op[0], f"accepted an impossible request, gave {after}", d)
                    elif nx is not None and not close(after, nx, 0):
                        chk.fail(key + ":" + op[0], "a refused request changed the description", d)
                    if nx is None:
                        break
                else:
                    if not good:
                        chk.fail(key + ":" + op[0], "refused a valid request", d)
                        break
                    if not close(after, nx):
                        chk.fail(key + ":" + op[0], f"got {after} want {nx}", d)
                        break
                if nx is not None:
                    st = after
    # grid parameter files
    P = {"normalize_by_currents": True, "assume_stellarator_symmetry": False, "number_of_field_periods": 5, "r_grid_minimum": 1.0,
         "r_grid_maximum": 2.25, "number_of_r_grid_points": 11, "z_grid_minimum": -0.5, "z_grid_maximum": 0.75, "number_of_z_grid_points": 12,
         "number_of_phi_grid_points": 18}
    keys = list(P)
    docs = []
    def add(d):
        docs.append((json.dumps(d), d))
    for a in (True, False):
        for s in (True, False):
            add({**P, "normalize_by_currents": a, "assume_stellarator_symmetry": s})
    for i, k in enumerate(keys):
        add({q: P[q] for q in keys if q != k})
        for bad in (None, "x", [], {}, 1.5, True, -1, 0, 1, 2, 3.0, 1e300, 10**12, "5"):
            add({**P, k: bad})
    add({k: P[k] for k in reversed(keys)})
    add({**P, "extra": 3})
    full = json.dumps(P)
    texts2 = [(t, d) for t, d in docs] + [(full[:n], None) for n in range(len(full))] + [(t, None) for t in ("", "[]", "null", "3", "{", "[1,2")]

    def valid(d):
        if d is None or any(k not in d for k in keys):
            return "err", None
        soft = False
        for k in keys:
            x = d[k]
            if k in ("normalize_by_currents", "assume_stellarator_symmetry"):
                if not isinstance(x, bool):
                    return "err", None
            elif k.startswith("number"):
                if isinstance(x, bool) or not isinstance(x, (int, float)) or x != int(x) or not -2**31 <= x < 2**31:
                    return "err", None
                if isinstance(x, float):
                    soft = True
            elif isinstance(x, bool) or not isinstance(x, (int, float)):
                return "err", None
        if d["number_of_field_periods"] < 1 or d["r_grid_maximum"] <= d["r_grid_minimum"] or d["z_grid_maximum"] <= d["z_grid_minimum"] or \
           d["number_of_r_grid_points"] < 2 or d["number_of_z_grid_points"] < 2 or d["number_of_phi_grid_points"] < 1:
            return "err", None
        return ("either" if soft else "ok"), tuple(d[k] for k in keys)
    jobs, wants = [], []
    for n, (t, d) in enumerate(texts2):
        f = tmp / f"p{n}.json"
        f.write_text(t)
        for fn, a in (("params_json", t), ("params_file", str(f))):
            jobs.append((fn, a))
            wants.append((valid(d), t))
    for bad in (tmp / "missing.json", tmp, pathlib.Path("/dev/null")):
        jobs.append(("params_file", str(bad)))
        wants.append((("err", None), f"file {bad.name}"))
        jobs.append(("parse_file", str(bad)))
        wants.append((("either" if bad.name == "null" else "err", (None, ())), f"file {bad.name}"))
    for n, t in enumerate(REFS):
        (tmp / f"coils.{n}").write_text(t)
        jobs.append(("parse_file", str(tmp / f"coils.{n}")))
        wants.append((spec(t), t))
    for j, ((w, st), t), r in zip(jobs, wants, vlib.pmap([[j] for j in jobs], run_params, init, timeout=60)):
        chk.seen("files")
        d = {"fn": j[0], "text": t}
        key = f"{j[0]}:{'doc' if t.startswith('{') else t}"
        if r.kind != "ok":
            chk.fail(key, f"{r.kind}: {str(r.value)[-300:]}", d)
            continue
        g, val = r.value[0]
        if g == "err" and w == "ok":
            chk.fail(key, f"refused a valid document: {val}", d)
        elif g == "ok" and w == "err":
            chk.fail(key, f"accepted a malformed document: {val}", d)
        elif g == "ok" and not close(val, st, 0):
            chk.fail(key, f"got {val} want {st}", d)
    chk.cov.update(files=len(texts), op_sequences=len(seqs), operations=nops, parameter_documents=len(jobs), depth=depth)


vlib.main(run)
