"""Y01: every annotation x small array x serialisation path through the real model base class."""
import itertools, json, math, typing
import numpy as np
import vlib

F = [0.0, -0.0, 1.5, math.nan, math.inf, -math.inf, 1e300, 5e-324, 0.1]
F3 = [1.0, math.nan, -math.inf]
I = [0, 1, -1, 2**31, -2**63, 2**63 - 1, 7]
BO = [True, False]


def arrays(tier):
    """(tag, array)"""
    out = []
    def add(tag, alpha, dt, nmax, big):
        out.append((f"{tag}0", np.zeros(0, dt)))
        for n in range(1, nmax + 1):
            for c in itertools.product(alpha, repeat=n):
                out.append((f"{tag}{n}", np.array(c, dt)))
        for sh in [(1, 1), (1, 2), (2, 1), (2, 2), (1, 1, 1), (2, 1, 2), (1, 2, 2)]:
            k = int(np.prod(sh))
            for c in itertools.product(big, repeat=k):
                out.append((f"{tag}{sh}", np.array(c, dt).reshape(sh)))
        for sh in [(3, 5), (5, 3), (2, 3, 4), (4, 1, 3), (2, 3, 2, 2), (1, 17), (40,)]:
            k = int(np.prod(sh))
            a = np.array([alpha[(i * 7 + 3) % len(alpha)] if i % 3 else i for i in range(k)]).astype(dt).reshape(sh)
            out.append((f"{tag}{sh}", a))
            if a.ndim > 1:   # non-contiguous storage
                out.append((f"{tag}{sh}T", np.asfortranarray(a)))
                out.append((f"{tag}{sh}v", a[::-1, ::2]))
        out.append((f"{tag}e20", np.zeros((2, 0), dt)))
        out.append((f"{tag}e03", np.zeros((0, 3), dt)))
        out.append((f"{tag}r0", np.array(alpha[1], dt)))
    add("f", F, np.float64, 3 if tier == "thorough" else 2, F3)
    add("i", I, np.int64, 3 if tier == "thorough" else 2, [0, -5])
    add("b", BO, np.bool_, 3, BO)
    return out


def eq(a, b):
    if isinstance(a, np.ndarray):
        if not isinstance(b, np.ndarray) or a.dtype != b.dtype or a.shape != b.shape:
            return False
        if a.dtype == np.float64:
            x, y = np.ascontiguousarray(a), np.ascontiguousarray(b)
            nn = np.isnan(x)
            return bool(np.array_equal(nn, np.isnan(y)) and np.array_equal(x[~nn], y[~nn])
                        and np.array_equal(np.signbit(x[~nn]), np.signbit(y[~nn])))
        return bool(np.array_equal(a, b))
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(eq(a[k], b[k]) for k in a)
    if isinstance(a, float) and isinstance(b, float):
        return (math.isnan(a) and math.isnan(b)) or (a == b and math.copysign(1, a) == math.copysign(1, b))
    if hasattr(type(a), "model_fields"):
        return type(a) is type(b) and all(eq(getattr(a, k), getattr(b, k)) for k in type(a).model_fields)
    return type(a) is type(b) and a == b


_DD = None


def deep(a):
    import copy
    return copy.deepcopy(a)


def case(ctx, c):
    """c = (container index, start, stop) over the arrays; returns (n, violations, outcomes)."""
    B, jt, pydantic, arrs = ctx
    kind, lo, hi = c
    dts = {"f": jt.Float, "i": jt.Int, "b": jt.Bool}
    out, viol, n = {}, [], 0
    models = {}

    class Inner(B):
        a: np.ndarray
        s: str = "x"
        f: float = math.nan

    def model(ann, key):
        if key not in models:
            models[key] = type("M", (B,), {"__annotations__": {"x": ann}, "__module__": __name__})
        return models[key]

    def probe(ann, mk, val, key, lossless, strict=True):
        nonlocal n
        n += 1
        M = model(ann, mk)
        try:
            m = M(x=val)
        except pydantic.ValidationError as e:
            viol.append((key, f"valid value refused: {e}"[:300]))
            return
        if not eq(m.x, val):
            viol.append((key, f"constructor changed {val!r} into {m.x!r}"))
        before = deep(m.x)
        s1 = s2 = None
        for how in ("json", "json-dict", "python", "json-twice"):
            try:
                if how == "json":
                    s1 = m.model_dump_json()
                    json.loads(s1, parse_constant=lambda z: (_ for _ in ()).throw(AssertionError("non-standard JSON " + z)))
                    r = M.model_validate_json(s1)
                elif how == "json-dict":
                    d = m.model_dump(mode="json")
                    s2 = json.dumps(d, allow_nan=False)
                    r = M.model_validate(d)
                elif how == "python":
                    r = M.model_validate(m.model_dump())
                else:
                    if s2 is None:
                        continue
                    r = M.model_validate_json(s2)
            except (pydantic.ValidationError, pydantic.ValidationError.__mro__[1] if False else ValueError) as e:
                if lossless or how == "python":
                    viol.append((f"{key} {how}", f"{val!r}: refused {str(e)[:300]}"))
                out[f"{kind}:{how}:refused"] = out.get(f"{kind}:{how}:refused", 0) + 1
                continue
            except Exception as e:  # noqa: BLE001
                viol.append((f"{key} {how}", f"{val!r}: {type(e).__name__} {str(e)[:300]}"))
                continue
            if not eq(r.x, before):
                if lossless or strict or how == "python":
                    viol.append((f"{key} {how}", f"{before!r} became {r.x!r}"))
            out[f"{kind}:{how}:ok"] = out.get(f"{kind}:{how}:ok", 0) + 1
        if not eq(m.x, before):
            viol.append((f"{key} dump", f"dumping changed the model: {before!r} -> {m.x!r}"))

    for idx in range(lo, hi):
        tag, a = arrs[idx]
        dt, letters = tag[0], " ".join("abcd"[:a.ndim])
        T = dts[dt][np.ndarray, letters]
        full = a.size > 0 and a.ndim > 0 or (a.ndim == 1 and dt == "f") or (a.ndim == 2 and a.shape[0] > 0 and dt == "f")
        ok = full
        k = f"{kind} {tag} #{idx}"
        b = a.copy()
        if b.size:
            b = np.ascontiguousarray(b[::-1]) if b.ndim else b
        if kind == "plain":
            probe(np.ndarray, "p", a, k, ok, strict=False)
        elif kind == "typed":
            probe(T, ("t", dt, a.ndim), a, k, ok)
        elif kind == "fixed":
            probe(dts[dt][np.ndarray, " ".join(map(str, a.shape))], ("x", dt, a.shape), a, k, ok)
        elif kind == "optional":
            probe(typing.Optional[T], ("o", dt, a.ndim), a, k, ok)
            probe(T | None, ("o2", dt, a.ndim), a, k, ok)
        elif kind == "union":
            probe(T | str, ("u1", dt, a.ndim), a, k + " |str", ok)
            probe(str | T, ("u2", dt, a.ndim), a, k + " str|", ok)
            probe(int | T | None, ("u3", dt, a.ndim), a, k + " int||None", ok, strict=a.ndim > 0)
        elif kind == "annotated":
            probe(typing.Annotated[T, "note"], ("a1", dt, a.ndim), a, k, ok)
            probe(list[typing.Annotated[T, "note"]], ("a2", dt, a.ndim), [a, b], k + " list", ok)
        elif kind == "list":
            probe(list[T], ("l", dt, a.ndim), [a, b, a], k, ok)
        elif kind == "dict":
            probe(dict[str, T], ("d", dt, a.ndim), {"k": a, "z": b, "": a}, k, ok)
            probe(dict[str, list[T]], ("dl", dt, a.ndim), {"k": [a], "z": [], "y": [b, a]}, k + " dict-list", ok)
        elif kind == "tuple":
            probe(tuple[T, ...], ("tt", dt, a.ndim), (a, b), k, ok)
            probe(tuple[T, str, T], ("t3", dt, a.ndim), (a, "NaN", b), k + " mixed", ok)
            probe(tuple[float, T], ("t2", dt, a.ndim), (math.nan, a), k + " float", ok)
            probe(list[tuple[int, T]], ("lt", dt, a.ndim), [(1, a), (2, b)], k + " list", ok)
        elif kind == "model":
            probe(Inner, "m", Inner(a=a), k, ok, strict=False)
            probe(list[Inner], "lm", [Inner(a=a, s="NaN", f=1.5), Inner(a=b, s="Infinity")], k + " list", ok, strict=False)
            probe(dict[str, Inner], "dm", {"q": Inner(a=a, f=-math.inf)}, k + " dict", ok, strict=False)
        elif kind == "reject":
            n += 1
            wrongs = []
            for dt2 in dts:
                for nd in range(0, 4):
                    if (dt2, nd) != (dt, a.ndim):
                        wrongs.append((dts[dt2][np.ndarray, " ".join("abcd"[:nd])], f"{dt2}{nd}"))
            if a.ndim and a.size:
                wrongs.append((dts[dt][np.ndarray, " ".join([str(a.shape[0] + 1)] + ["abcd"[i] for i in range(1, a.ndim)])], "dim+1"))
                if a.ndim == 2 and a.shape[0] != a.shape[1]:
                    wrongs.append((dts[dt][np.ndarray, "n n"], "square"))
            for W, wn in wrongs:
                M = model(W, ("r", wn, a.shape[:1]))
                srcs = [("array", a)]
                if full:
                    srcs.append(("list", json.loads(json.dumps(a.tolist()))))
                for how, v in srcs:
                    # a list of integers/bools carries no element type only when it is empty
                    if how == "list" and a.size == 0:
                        continue
                    try:
                        m = M(x=v)
                        viol.append((f"{k} as {wn} from {how}", f"accepted {v!r} for {W}: {m.x!r}"))
                    except pydantic.ValidationError:
                        out["reject:ok"] = out.get("reject:ok", 0) + 1
    return n, viol[:20], out


def bad(ctx, c):
    """Unsupported element kinds, malformed lists, special strings."""
    B, jt, pydantic, _ = ctx
    FF, II = jt.Float[np.ndarray, "n"], jt.Int[np.ndarray, "n"]
    viol, n = [], 0
    def mk(T):
        return type("M", (B,), {"__annotations__": {"x": T}, "__module__": __name__})
    for T in (np.ndarray, jt.Shaped[np.ndarray, "..."]):
        for v in (np.array([1 + 2j]), np.array(["a"]), np.array([1.0], np.float32), np.array([1], np.int32), np.array([1], np.uint8),
                  np.array([1], np.uint64), np.array([object()], object), np.array([b"x"]), np.array(["2020-01-01"], "datetime64[D]"), np.array([1.0], np.float16), np.array([1.0], np.longdouble)):
            n += 1
            m = mk(T)(x=v)
            for f in (lambda: m.model_dump_json(), lambda: m.model_dump(mode="json")):
                try:
                    r = f()
                    viol.append((f"bad dtype {v.dtype}", f"serialised as {r!r}"))
                except Exception as e:
                    if "serializ" not in str(e).lower() and not isinstance(e, ValueError):
                        viol.append((f"bad dtype {v.dtype}", f"{type(e).__name__}: {e}"))
            if not eq(m.x, v) and v.dtype != object:
                viol.append((f"bad dtype {v.dtype}", "model changed"))
    for T, v in [(FF, ["abc"]), (FF, [[1.0], [2.0, 3.0]]), (FF, [[1.0]]), (FF, "NaN"), (FF, 1.5), (FF, {"a": 1}), (II, [1.5]), (II, ["1"]), (II, [2**63]),
                 (FF, [1.0, "x"]), (FF, [1.0, [2.0]]), (FF, [{}]), (II, ["NaN"]), (II, [None]), (list[FF], [[1.0], ["q"]]), (tuple[FF, FF], [[1.0]]), (tuple[FF, FF], [[1.0]] * 3), (dict[str, FF], {"a": ["q"]})]:
        n += 1
        for how in ("py", "json"):
            try:
                m = mk(T)(x=v) if how == "py" else mk(T).model_validate_json(json.dumps({"x": v}))
                viol.append((f"bad {T} {v!r} {how}", f"accepted as {m.x!r}"))
            except pydantic.ValidationError:
                pass
            except Exception as e:  # noqa: BLE001
                if not isinstance(e, ValueError):
                    viol.append((f"bad {T} {v!r} {how}", f"{type(e).__name__}: {e}"))
    sp = {"NaN": math.nan, "nan": math.nan, "Infinity": math.inf, "inf": math.inf, "-Infinity": -math.inf, "-inf": -math.inf}
    items = list(sp.items()) + [(None, math.nan), (1.5, 1.5), (-0.0, -0.0)]
    for L in (1, 2, 3):
        for c2 in itertools.product(items, repeat=L):
            n += 1
            want = np.array([w for _, w in c2])
            for how in ("py", "json"):
                v = [s for s, _ in c2]
                m = mk(FF)(x=v) if how == "py" else mk(FF).model_validate_json(json.dumps({"x": v}))
                if not eq(m.x, want):
                    viol.append((f"special {v!r} {how}", f"{m.x!r}"))
    # values next to arrays: strings that look special, None, mixed unions, scalar floats
    class M2(B):
        a: FF | None
        s: str
        t: str | FF
        q: float
        o: typing.Optional[float] = None
        l: list[float] = []
        g: dict[str, float] = {}
        tt: tuple[float, ...] = ()
    for a, s, t, q in itertools.product([None, np.array([math.nan]), np.zeros(0)], ["NaN", "", "x", "-inf"], ["NaN", "q", np.array([math.inf])], [math.nan, -math.inf, 0.1, -0.0]):
        n += 1
        m = M2(a=a, s=s, t=t, q=q, o=q, l=[q, 1.0], g={"k": q}, tt=(q, 2.0))
        for r in (M2.model_validate_json(m.model_dump_json()), M2.model_validate(m.model_dump(mode="json")), M2.model_validate(m.model_dump()), m.model_copy(deep=True)):
            if not eq(r, m):
                viol.append((f"mixed {a!r} {s!r} {t!r} {q!r}", f"{m!r} -> {r!r}"))
        json.dumps(m.model_dump(mode="json"), allow_nan=False)
    import jax.numpy as jnp
    import jax
    jax.config.update("jax_enable_x64", True)
    M3 = mk(np.ndarray | jt.Array)
    for v in ([1.0, 2.0], [[1.5, math.nan], [0.0, -1.0]]):
        n += 1
        r = M3.model_validate_json(M3(x=jnp.array(v, dtype=jnp.float64)).model_dump_json())
        if not eq(np.asarray(r.x), np.array(v)):
            viol.append((f"jax {v}", repr(r.x)))
    return n, viol[:20], {"bad": n}


def run():
    c = vlib.Check("Y01", "exploration",
                   "11 annotation containers x {float,int,bool} x all vectors up to length 2 (3) over a special-value alphabet, all small matrices/3-tensors over 2-3 values, larger asymmetric and non-contiguous ones x {JSON text, JSON dict, python dict, twice}; all wrong dtype/rank/shape validations; unsupported element kinds",
                   ["rank-0 arrays, empty arrays of rank>1 and empty integer/boolean arrays have no faithful JSON form; for these only 'equal or refused' is required (untyped annotations excepted)"])
    vlib.build(["_vmecpp"])

    def init():
        vlib.load_vmecpp()
        import jaxtyping as jt, pydantic
        from vmecpp._pydantic_numpy import BaseModelWithNumpy
        return BaseModelWithNumpy, jt, pydantic, arrays(c.tier)
    na = len(arrays(c.tier))
    kinds = ["plain", "typed", "fixed", "optional", "union", "annotated", "list", "dict", "tuple", "model", "reject"]
    step = 60
    cases = [(k, lo, min(lo + step, na)) for k in kinds for lo in range(0, na, step)] + [("bad", 0, 0)]

    def fn(ctx, cs):
        return bad(ctx, cs) if cs[0] == "bad" else case(ctx, cs)
    for cs, r in zip(cases, vlib.pmap(cases, fn, init, timeout=200)):
        if r.kind != "ok":
            c.fail(f"case {cs}", r)
            continue
        n, viol, out = r.value
        c.evaluations += n
        for k, v in out.items():
            c.outcomes[k] = c.outcomes.get(k, 0) + v
        for k, d in viol:
            c.fail(k, d)
    c.sample("dict[str, list[Float[2,2]]] with nan/-inf through JSON text; Int[a] given a float list must be refused")
    c.cov["arrays"] = na
    return c


vlib.main(run)
