#!/usr/bin/env python3
"""Checks of the Python layer: pycheck.py PROPERTY (C21..C26, C29).  Static: see pyan.py."""
import ast, os, re, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import run
import pyraw
from pyval import *
from pyan import *

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = REPO + "/src/interpn"
CLASSES = [("MultilinearRegular", "linear", "regular"), ("MultilinearRectilinear", "linear", "rectilinear"), ("MulticubicRegular", "cubic", "regular"), ("MulticubicRectilinear", "cubic", "rectilinear"), ("NearestRegular", "nearest", "regular"), ("NearestRectilinear", "nearest", "rectilinear")]
PREC = {"float64": "f64", "float32": "f32"}


class Ck:
    def __init__(self):
        self.viol, self.ob, self.files, self.fns, self.worlds, self.samples = [], 0, set(), set(), 0, []

    def need(self, ok, what):
        self.ob += 1
        if not ok:
            if what not in self.viol:
                self.viol.append(what)
        elif len(self.samples) < 6:
            self.samples.append(what[:200])


CK = Ck()


def fresh():
    a = An(SRC)
    a.raw_sigs = {n: d["params"] for n, d in RAW["functions"].items()}
    a.raw_opt = {n: d["params"][d["required"]:] for n, d in RAW["functions"].items()}
    a.module("")
    return a


def dtv(a, name, other=True):
    """a data type that is float64, float32 or something else"""
    b = a.bdd
    g64, g32 = b.var(("is", name, "float64")), b.var(("is", name, "float32"))
    b.assume(b.NOT(b.AND(g64, g32)))
    if not other:
        b.assume(b.OR(g64, g32))
        return ((g64, Dt("float64")), (b.NOT(g64), Dt("float32"))), {"float64": g64, "float32": b.NOT(g64)}
    return ((g64, Dt("float64")), (g32, Dt("float32")), (b.NOT(b.OR(g64, g32)), Dt("other"))), {"float64": g64, "float32": g32, "other": b.NOT(b.OR(g64, g32))}


def vec(name, n):
    return Vec(tuple(V(N(patom(("el", ("arg", name), i)))) for i in range(n)))


def mkarr(a, name, shape, dt, contig=None):
    n = 1
    for s in shape:
        n *= s
    c = a.bdd.var(("contiguous", name)) if contig is None else contig
    return a.arr(V(vec(name, n)), dt, tuple(pconst(s) for s in shape), c)


def els(name, n):
    return ("seq",) + tuple(N_(("el", ("arg", name), i)) for i in range(n))


def N_(t):
    return ("num", patom(t))


def guarded(a, g, f):
    saved = a.live
    a.live = a.bdd.AND(saved, g)
    r = f()
    a.live = saved
    return r


def run_fn(a, f):
    """evaluate f(); returns (value, live guard) and leaves a.live = 1"""
    a.live = 1
    a.raised = []
    a.tries = []
    a.depth = 0
    v = f()
    g = a.live
    a.live = 1
    return v, g


def world(label, f):
    CK.worlds += 1
    try:
        f()
    except Unsupported as e:
        CK.need(False, f"{label}: not analysable: {e}")
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        CK.need(False, f"{label}: not analysable: {type(e).__name__} {e} at {os.path.basename(tb.filename)}:{tb.lineno}")
        if os.environ.get("PYDEBUG"):
            traceback.print_exc()


# ------------------------------------------------------------------------------------------------ common judgements
def calls(a, label, expected, okcalls=None):
    """expected: list of (guard, function, {param: term}, out buffers or None).  Every raw call must be an expected one,
    with the expected arguments, and every expected call happens exactly once under its guard."""
    b = a.bdd
    got = {}
    for g, name, bound, key, heap, outs, err in a.events:
        if b.empty(g):
            continue
        hit = [e for e in expected if e[1] == name]
        if not hit:
            CK.need(False, f"{label}: calls {name}, which no case of the documentation selects [{b.show(g, 2)}]")
            continue
        e = hit[0]
        over = b.AND(g, b.NOT(e[0]))
        CK.need(b.empty(over), f"{label}: {name} is called where it should not be [{b.show(over, 2)}]")
        for p, t in e[2].items():
            if p not in bound:
                CK.need(False, f"{label}: {name} has no parameter {p}")
                continue
            have = dict(key[2:]).get(p)
            have = split_cases(a, have, g)
            CK.need(same_term(a, have, t, b.AND(g, e[0])), f"{label}: {name} gets {p} = {show_term(have)[:160]} instead of {show_term(t)[:160]}")
        prev = got.get(name, 0)
        CK.need(b.empty(b.AND(prev, g)), f"{label}: {name} is called twice")
        got[name] = b.OR(prev, g)
    for g, name, terms in [(e[0], e[1], e[2]) for e in expected]:
        miss = b.AND(g, b.NOT(got.get(name, 0)))
        CK.need(b.empty(miss), f"{label}: {name} is not called [{b.show(miss, 2)}]")


def split_cases(a, t, g):
    """remove cases excluded by the guard"""
    if isinstance(t, tuple) and t and t[0] == "cases":
        live = [(x, gg) for x, gg in t[1:] if not a.bdd.empty(a.bdd.AND(g, gg))]
        if len(live) == 1:
            return split_cases(a, live[0][0], g)
        return ("cases",) + tuple((split_cases(a, x, a.bdd.AND(g, gg)), gg) for x, gg in live)
    if isinstance(t, tuple):
        return tuple(split_cases(a, x, g) if isinstance(x, tuple) else x for x in t)
    return t


def same_term(a, x, y, g):
    b = a.bdd
    x, y = split_cases(a, x, g), split_cases(a, y, g)
    if b.empty(g) or x == y:
        return True
    for t in (x, y):
        if isinstance(t, tuple) and t and t[0] == "cases":
            o = y if t is x else x
            return all(same_term(a, c, o, b.AND(g, gg)) for c, gg in t[1:])
    if isinstance(x, tuple) and isinstance(y, tuple):
        if x[:1] == ("bool",) or y[:1] == ("bool",):
            def gg(t):
                return t[1] if t[0] == "bool" else (1 if t == ("const", True) else 0 if t == ("const", False) else None)
            p, q = gg(x), gg(y)
            return p is not None and q is not None and b.equal(p, q, g)
        return len(x) == len(y) and all(same_term(a, p, q, g) if isinstance(p, tuple) or isinstance(q, tuple) else p == q for p, q in zip(x, y))
    return x == y


def content_under(a, arr_, g):
    return guarded(a, g, lambda: a.content(arr_))


def is_result(a, arr_, g, names):
    """under g the array's contents are the result of the event selected by g among names"""
    b = a.bdd
    bad = g
    for gg, c in content_under(a, arr_, g):
        for eg, name, bound, key, heap, outs, err in a.events:
            if c == Tm(("result", key)):
                bad = b.AND(bad, b.NOT(b.AND(gg, eg)))
    return bad


def unchanged(a, label, before, allowed=()):
    for buf, (name, c) in before.items():
        if buf in allowed:
            continue
        CK.need(a.heap[buf] == c or a.norm(a.heap[buf]) == a.norm(c), f"{label}: the caller's {name} is overwritten")


# ------------------------------------------------------------------------------------------------ C21
def c21():
    reg = set(RAW["registered"])
    want = {f"interpn_{m}_{g}_{p}" for m in ("linear", "cubic", "nearest") for g in ("regular", "rectilinear") for p in ("f64", "f32")} | {f"check_bounds_{g}_{p}" for g in ("regular", "rectilinear") for p in ("f64", "f32")}
    for n in sorted(want):
        CK.need(n in reg, f"src/python.rs: {n} is not registered in the extension module")
    for n in RAW["unregistered"]:
        CK.need(False, f"src/python.rs: #[pyfunction] {n} is not registered in the extension module")
    a = fresh()
    fr = a.module("raw")
    CK.files |= a.analysed
    exported = {}
    for n, v in fr.env.items():
        for g, l in v:
            if isinstance(l, Ext) and l.path.startswith("rawext."):
                exported[n] = l.path[7:]
    for n, t in exported.items():
        CK.need(n == t, f"raw.py: {n} is bound to the extension's {t}")
        CK.need(t in reg, f"raw.py: {t} is not a function of the extension module")
    for n in sorted(reg):
        CK.need(n in exported, f"raw.py: {n} of the extension module is not exported")
    al = fr.env.get("__all__")
    CK.need(al is not None, "raw.py: no __all__")
    if al is not None:
        names = [a.only(x).v for x in a.items(al)]
        CK.need(sorted(names) == sorted(reg), f"raw.py: __all__ differs from the registered functions: {sorted(set(names) ^ reg)}")
    stub = ast.parse(open(SRC + "/raw.pyi").read())
    alias = {}
    funcs, stub_all = {}, None
    for s in ast.walk(stub):
        if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name):
            if s.targets[0].id == "__all__":
                stub_all = ast.literal_eval(s.value)
            else:
                alias[s.targets[0].id] = ast.unparse(s.value)
        elif isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.target, ast.Name):
            alias[s.target.id] = ast.unparse(s.value)
        elif isinstance(s, ast.FunctionDef):
            funcs[s.name] = s
        elif isinstance(s, ast.ImportFrom):
            for n in s.names:
                alias.setdefault(n.asname or n.name, (s.module or "") + "." + n.name)

    def expand(t):
        for _ in range(6):
            t2 = re.sub(r"(?<![\w.])(\w+)(?![\w(])", lambda m: alias[m.group(1)] if m.group(1) in alias and alias[m.group(1)] != m.group(1) and not alias[m.group(1)].endswith("." + m.group(1)) else m.group(1), t)
            if t2 == t:
                break
            t = t2
        return t
    if stub_all is not None:
        CK.need(sorted(stub_all) == sorted(reg), f"raw.pyi: __all__ differs from the registered functions: {sorted(set(stub_all) ^ reg)}")
    for n in sorted(funcs):
        CK.need(n in reg, f"raw.pyi: declares {n}, which the extension does not register")
    for n in sorted(reg):
        if n not in funcs:
            CK.need(False, f"raw.pyi: {n} is not declared")
            continue
        s, d = funcs[n], RAW["functions"][n]
        ps = [x for x in s.args.posonlyargs + s.args.args]
        CK.need([x.arg for x in ps] + [x.arg for x in s.args.kwonlyargs] == d["params"] + d["kwonly"], f"raw.pyi: parameters of {n} are {[x.arg for x in ps]}, the extension's are {d['params']}")
        CK.need(len(s.args.defaults) == len(d["params"]) - d["required"], f"raw.pyi: defaults of {n} differ")
        sfx = {"f64": "float64", "f32": "float32"}[n[-3:]]
        oth = {"f64": "float32", "f32": "float64"}[n[-3:]]
        types = d.get("types") or []
        CK.need(len(types) == len(d["params"]), f"src/python.rs: the parameter types of {n} are not readable")
        docs = DOCPARAMS(n)
        CK.need(d["params"] == docs, f"src/python.rs: parameters of {n} are {d['params']}, documented {docs}")
        for x, t in zip(ps, types):
            an = expand(ast.unparse(x.annotation)) if x.annotation is not None else ""
            if x.arg in ("starts", "steps", "vals", "grids", "obs") or x.arg == "out" and n.startswith("interpn"):
                CK.need(sfx in an and oth not in an, f"raw.pyi: {n}({x.arg}) is annotated {an}")
                CK.need(re.search(r"\b" + n[-3:] + r"\b", t) and not re.search(r"\b" + {"f64": "f32", "f32": "f64"}[n[-3:]] + r"\b", t), f"src/python.rs: {n} takes {x.arg} as {t}")
                seq = x.arg in ("grids", "obs")
                CK.need(("Sequence" in an or "list" in an or "Iterable" in an) == seq, f"raw.pyi: {n}({x.arg}) is annotated {an}")
                CK.need(("Vec<" in t) == seq, f"src/python.rs: {n} takes {x.arg} as {t}")
            elif x.arg == "out":
                CK.need("bool" in an and "bool" in t, f"raw.pyi: {n}(out) is annotated {an}")
            elif x.arg == "dims":
                CK.need("int" in an and "usize" in t, f"raw.pyi: {n}(dims) is annotated {an}")
            elif x.arg == "linearize_extrapolation":
                CK.need("bool" in an and t == "bool", f"raw.pyi: {n}({x.arg}) is annotated {an}")
            elif x.arg == "atol":
                CK.need("float" in an and n[-3:] in t, f"raw.pyi: {n}(atol) is annotated {an}, taken as {t}")
        for x, t in zip(d["params"], types):
            if "PyArray" in t or "ReadonlyArray" in t or "ReadwriteArray" in t:
                CK.need("Readonly" not in t if x == "out" else "Readonly" in t, f"src/python.rs: {n} takes {x} as {t}: only out may be writable")
    CK.files |= {"raw.pyi"}


def DOCPARAMS(n):
    if n.startswith("check_bounds"):
        return (["dims", "starts", "steps"] if "_regular_" in n else ["grids"]) + ["obs", "atol", "out"]
    g = ["dims", "starts", "steps", "vals"] if "_regular_" in n else ["grids", "vals"]
    return g + (["linearize_extrapolation"] if "cubic" in n else []) + ["obs", "out"]


# ------------------------------------------------------------------------------------------------ wrapper classes
def cls_index(a, name):
    l = a.only(a.module("").env[name])
    if not isinstance(l, Cls):
        a.fail(f"{name} is not a class")
    return l.ident


def arrobj(a, data, dt):
    """instance of ArrayF64/ArrayF32 holding data"""
    out = []
    for g, d in dt:
        c = {"float64": "ArrayF64", "float32": "ArrayF32", "other": "ArrayF64"}[d.name]
        i = next((k for k, x in enumerate(a.classes) if x.name == c), None)
        if i is None:
            a.fail(f"class {c} not found")
        fs = tuple((n, V(data) if n == "data" else V(K(d.name))) for n in a.fields(i))
        out.append((g, Obj(i, fs)))
    return tuple(out)


def model(a, name, grid, k, dt, lens=None, contig=1, sizes=None, dts=None):
    """symbolic instance of a wrapper class with k dimensions"""
    i = cls_index(a, name)
    lens = lens or [2 + (j + 1) % 3 if k <= 3 else 2 + (j == k - 1) for j in range(k)]
    dts = dts or {}
    prod = 1
    for x in lens:
        prod *= x
    f = {}
    want = a.fields(i)
    for n, (ann, _, _) in want.items():
        t = ann.replace(" ", "")
        if n == "dims":
            f[n] = a.newlist([V(N(patom(("int", "dims", j)))) for j in range(k)])
        elif n in ("starts", "steps"):
            sz = (sizes or {}).get(n, k)
            f[n] = arrobj(a, mkarr(a, n, (sz,), dts.get(n, dt), contig), dts.get(n, dt))
        elif n == "vals":
            if grid == "regular" or sizes and "vals" in sizes:
                f[n] = arrobj(a, a.arr(V(Tm(("arg", "vals"))), dts.get(n, dt), (patom(("size", "vals")),), contig if contig is not None else a.bdd.var(("contiguous", "vals"))), dts.get(n, dt))
            else:
                f[n] = arrobj(a, mkarr(a, n, (prod,), dts.get(n, dt), contig), dts.get(n, dt))
        elif n == "grids":
            f[n] = a.newlist([arrobj(a, mkarr(a, f"grid{j}", (lens[j],), dts.get(f"grid{j}", dt), contig), dts.get(f"grid{j}", dt)) for j in range(k)])
        elif t == "bool":
            f[n] = V(B(a.bdd.var(("flag", n)), False))
        else:
            a.fail(f"class {name} has an undocumented field {n}")
    for n in (("dims", "starts", "steps", "vals") if grid == "regular" else ("grids", "vals")) + (("linearize_extrapolation",) if "cubic" in name else ()):
        if n not in f:
            a.fail(f"class {name} has no field {n}")
    return Obj(i, tuple((n, f[n]) for n in want)), lens


def gridterms(grid, k, lens):
    if grid == "regular":
        return {"dims": ("seq",) + tuple(N_(("int", "dims", j)) for j in range(k)), "starts": els("starts", k), "steps": els("steps", k)}
    return {"grids": ("seq",) + tuple(els(f"grid{j}", lens[j]) for j in range(k))}


def c22():
    for name, method, grid in CLASSES:
        for meth_ in ("eval", "eval_unchecked"):
            for k in range(1, 9):
                for given in (False, True):
                    for n in (5, 1, 0) if k in (1, 2, 8) else (5,):
                        world(f"{name}.{meth_}", lambda: c22_eval(name, method, grid, meth_, k, given, n))
        for k in range(1, 9):
            for shape in ((5,), (2, 3), (1,), (1, 1), (4, 1, 2), (0,)) if k < 4 else ((5,), (2, 3), (0,)):
                world(f"{name}.check_bounds", lambda: c22_bounds(name, grid, k, shape))


def c22_eval(name, method, grid, meth_, k, given, n=5):
    a = fresh()
    b = a.bdd
    dt, gs = dtv(a, "vals.dtype")
    o, lens = model(a, name, grid, k, dt)
    obs = [mkarr(a, f"obs{j}", (n,), dt, 1) for j in range(k)]
    out = mkarr(a, "out", (n,), dt, 1) if given else None
    before = {x.buf: (f"obs[{j}]", a.heap[x.buf]) for j, x in enumerate(obs)}
    before.update({bb: ("array", a.heap[bb]) for bb in list(a.heap) if isinstance(a.heap[bb], tuple) and (out is None or bb != out.buf)})
    lo = a.newlist([V(x) for x in obs])
    f = a.attr(o, meth_)
    label = f"{name}.{meth_}({'out given' if given else 'no out'}, {k}-D, {n} points)"
    v, ok = run_fn(a, lambda: a.lift(lambda l: a.lcall(l, [lo], {"out": V(out)} if given else {}), V(f) if isinstance(f, Leaf) else f))
    CK.files |= a.analysed
    CK.fns.add(f"{name}.{meth_}")
    exp = []
    errs = 0
    for d, g in gs.items():
        if d == "other":
            continue
        t = gridterms(grid, k, lens)
        t["vals"] = els("vals", _prod(lens)) if grid != "regular" else ("data", ("arg", "vals"))
        if "cubic" in name:
            t["linearize_extrapolation"] = ("bool", b.var(("flag", "linearize_extrapolation")))
        t["obs"] = ("seq",) + tuple(els(f"obs{j}", n) for j in range(k))
        exp.append((g, f"interpn_{method}_{grid}_{PREC[d]}", t))
    calls(a, label, exp)
    for e in a.events:
        errs = b.OR(errs, b.AND(e[0], e[6]))
    okexp = b.AND(b.OR(gs["float64"], gs["float32"]), b.NOT(errs))
    CK.need(b.equal(ok, okexp), f"{label}: does not return normally exactly when the raw function succeeds [{b.show(b.ite(ok, b.NOT(okexp), okexp), 2)}]")
    te = b.OR(*[g for g, rn in a.raised if rn == "TypeError"])
    CK.need(b.implies(gs["other"], te), f"{label}: no TypeError for other data types")
    for g, l in guarded(a, ok, lambda: a.norm(v)):
        if not isinstance(l, Arr):
            CK.need(False, f"{label}: returns {l}")
            continue
        CK.need(l.shape == (pconst(n),), f"{label}: the result's shape is {[pshow(s) for s in l.shape]}, not the shape of obs[0]")
        bad = is_result(a, l, b.AND(g, ok), None)
        CK.need(b.empty(bad), f"{label}: the returned array does not hold the results [{b.show(bad, 2)}]")
        if given:
            CK.need(l.buf == out.buf, f"{label}: the caller's output array is not the one returned")
        else:
            CK.need(l.buf not in before, f"{label}: the result aliases an input")
            CK.need(all(dd == next(x for gg, x in dt if not b.empty(b.AND(gg, g3))) for g3, dd in guarded(a, b.AND(g, ok), lambda: a.norm(a.dt[l.buf]))), f"{label}: the new array's data type is not that of obs[0]")
    if given:
        bad = is_result(a, out, ok, None)
        CK.need(b.empty(bad), f"{label}: the caller's output array does not hold the results [{b.show(bad, 2)}]")
    unchanged(a, label, before)


def _prod(xs):
    p = 1
    for x in xs:
        p *= x
    return p


def c22_bounds(name, grid, k, shape):
    a = fresh()
    b = a.bdd
    dt, gs = dtv(a, "vals.dtype")
    o, lens = model(a, name, grid, k, dt)
    n = _prod(shape)
    obs = [mkarr(a, f"obs{j}", shape, dt) for j in range(k)]
    before = {bb: ("input", a.heap[bb]) for bb in list(a.heap) if isinstance(a.heap[bb], tuple)}
    lo = a.newlist([V(x) for x in obs])
    f = a.attr(o, "check_bounds")
    atol = N(patom(("num", "atol")))
    label = f"{name}.check_bounds({k}-D, observations of shape {shape})"
    v, ok = run_fn(a, lambda: a.lift(lambda l: a.lcall(l, [lo, V(atol)], {}), V(f) if isinstance(f, Leaf) else f))
    CK.files |= a.analysed
    CK.fns.add(f"{name}.check_bounds")
    exp = []
    for d, g in gs.items():
        if d == "other":
            continue
        t = gridterms(grid, k, lens)
        t["obs"] = ("seq",) + tuple(els(f"obs{j}", n) for j in range(k))
        t["atol"] = N_(("num", "atol"))
        exp.append((g, f"check_bounds_{grid}_{PREC[d]}", t))
    calls(a, label, exp)
    errs = b.OR(*[b.AND(e[0], e[6]) for e in a.events])
    okexp = b.AND(b.OR(gs["float64"], gs["float32"]), b.NOT(errs))
    CK.need(b.equal(ok, okexp), f"{label}: does not return normally exactly when the raw function succeeds [{b.show(b.ite(ok, b.NOT(okexp), okexp), 2)}]")
    te = b.OR(*[g for g, n_ in a.raised if n_ == "TypeError"])
    CK.need(b.implies(gs["other"], te), f"{label}: no TypeError for other data types")
    for g, l in guarded(a, ok, lambda: a.norm(v)):
        if not isinstance(l, Arr):
            CK.need(False, f"{label}: returns {l}")
            continue
        CK.need(l.shape == (pconst(k),), f"{label}: the result has {[pshow(s) for s in l.shape]} flags for {k} dimensions")
        for eg, nm, bound, key, heap, outs, err in a.events:
            gg = b.AND(g, ok, eg)
            if b.empty(gg):
                continue
            its = guarded(a, gg, lambda: a.flat_items(l))
            for j, x in enumerate(its):
                t = guarded(a, gg, lambda: a.truth(x))
                CK.need(b.equal(t, b.var(("flag", j, key)), gg), f"{label}: flag {j} of the result is not the raw function's flag {j}")
    unchanged(a, label, before)


# ------------------------------------------------------------------------------------------------ C23
def c23():
    a0 = fresh()
    CK.files |= a0.analysed
    for name, method, grid in CLASSES:
        i = cls_index(a0, name)
        cfg = a0.config(i)
        CK.need(a0.is_model(i), f"{name} is not a pydantic model")
        CK.need(cfg.get("frozen") is True, f"{name}: objects can be modified (model_config has no frozen=True)")
        hooks = a0.hooks(i, "pydantic.model_validator")
        good = [h for h in hooks if isinstance(h[2], Partial) and dict(h[2].kwargs).get("mode") == V(K("after"))]
        CK.need(len(good) >= 1 and len(good) == len(hooks), f"{name}: its validation does not run after construction and deserialization (hooks: {[h[1] for h in hooks]})")
        for n, (ann, node, _) in a0.fields(i).items():
            t = ann.replace(" ", "")
            want = {"dims": ("list[int]",), "starts": ("Array",), "steps": ("Array",), "vals": ("Array",), "grids": ("list[Array]",), "linearize_extrapolation": ("bool",)}.get(n)
            CK.need(want is not None and t in want, f"{name}.{n} is declared {ann}")
        mx = 6 if method == "nearest" else 8
        for k in range(0, 11):
            lenss = [None] if grid == "regular" else ([[2] * k] + ([[2 + (j == p) * 2 for j in range(k)] for p in range(min(k, 2))]) if k <= 3 else [[2] * k])
            if grid != "regular" and k:
                lenss.append([1] + [2] * (k - 1))
                lenss.append([2] * (k - 1) + [4])
                if method == "cubic" and k <= 4:
                    lenss += [[4] * k, [4] * (k - 1) + [3], [3] + [4] * (k - 1), [5] * k]
                if method == "cubic" and k > 4:
                    lenss += [[4] * k, [4] * (k - 1) + [3]]
            for lens in lenss:
                world(f"{name} ({k}-D)", lambda: c23_world(name, method, grid, k, mx, lens, {}))
            if grid == "regular" and 1 <= k <= 9:
                for sz in ({"starts": k - 1}, {"starts": k + 1}, {"steps": k - 1}, {"steps": k + 1}):
                    world(f"{name} ({k}-D)", lambda: c23_world(name, method, grid, k, mx, None, sz))


def c23_world(name, method, grid, k, mx, lens, sizes):
    a = fresh()
    b = a.bdd
    names = ["vals"] + (["starts", "steps"] if grid == "regular" else [f"grid{j}" for j in range(k)])
    dts, g64 = {}, {}
    for n in names:
        dts[n], gs = dtv(a, n + ".dtype", False)
        g64[n] = gs["float64"]
    o, lens = model(a, name, grid, k, dts["vals"], lens, 1, dict(sizes, vals=1), dts)
    i = o.cls
    label = f"{name} with {k} dimensions" + (f", {sizes}" if sizes else "") + (f", grid sizes {lens}" if grid != "regular" else "")

    def go():
        for j, fn, d in a.hooks(i, "pydantic.model_validator"):
            ident = a.only(a.classes[j].attrs[fn]).ident
            a.call_fn(ident, [V(o)], {})
        return ()
    CK.fns.add(f"{name}._validate_model")
    _, ok = run_fn(a, go)
    size = patom(("size", "vals"))
    exp = 1 if 1 <= k <= mx else 0
    why = []
    conds = []
    if grid == "regular":
        prod = pconst(1)
        for j in range(k):
            prod = pmul(prod, patom(("int", "dims", j)))
        if sizes:
            exp = 0
        conds.append(("the value array's size is the product of the dimension sizes", a.eq0(padd(size, prod, -1))))
        for j in range(sizes.get("steps", k)):
            conds.append((f"step {j} is positive", a.order("gt", patom(("el", ("arg", "steps"), j)))))
        if method == "cubic":
            for j in range(k):
                conds.append((f"dimension {j} has at least 4 points", a.order("ge", padd(patom(("int", "dims", j)), pconst(4), -1))))
    else:
        conds.append(("the value array's size is the product of the dimension sizes", a.eq0(padd(size, pconst(_prod(lens)), -1))))
        for j in range(k):
            for p in range(lens[j] - 1):
                conds.append((f"grid {j} increases at point {p}", a.order("gt", padd(patom(("el", ("arg", f"grid{j}"), p + 1)), patom(("el", ("arg", f"grid{j}"), p)), -1))))
        if method == "cubic" and any(x < 4 for x in lens):
            exp = 0
    for n in names[1:]:
        conds.append((f"{n} and vals have the same data type", b.NOT(b.ite(g64["vals"], b.NOT(g64[n]), g64[n]))))
    allc = b.AND(exp, *[g for _, g in conds])
    miss = b.AND(ok, b.NOT(allc))
    if not b.empty(miss):
        bad = [w for w, g in conds if not b.implies(ok, g)] or ["the number of dimensions, array sizes or minimum grid sizes are as documented"]
        for w in bad:
            CK.need(False, f"{label}: accepted without checking that {w}")
    else:
        CK.need(True, f"{label}: accepted only when all {len(conds)} conditions hold")
    lost = b.AND(allc, b.NOT(ok))
    CK.need(b.empty(lost), f"{label}: a well-formed interpolator is rejected [{b.show(lost, 2)}]")


# ------------------------------------------------------------------------------------------------ C24
def c24():
    a = fresh()
    CK.files |= a.analysed
    ser = a.module("serialization")
    if ser is None:
        CK.need(False, "serialization.py not found")
        return
    for cname, dtn in (("ArrayF64", "float64"), ("ArrayF32", "float32")):
        world(cname, lambda: c24_array(cname, dtn))
    # the wrapper classes' array fields are a union of the two classes discriminated by the tag, which names the class's own precision
    union = None
    tree = {}
    for fn in a.analysed:
        for s in ast.parse(open(os.path.join(SRC, fn)).read()).body:
            if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and s.targets[0].id == "Array" or isinstance(s, (ast.AnnAssign,)) and isinstance(s.target, ast.Name) and s.target.id == "Array":
                tree[fn] = ast.unparse(s.value)
    CK.need(len(tree) == 1, f"the array field type is not defined once: {sorted(tree)}")
    for fn, t in tree.items():
        CK.need("discriminator='dtype'" in t and "ArrayF32" in t and "ArrayF64" in t, f"{fn}: Array = {t} does not select the class by its precision tag")
    for cname, method, grid in CLASSES:
        i = cls_index(a, cname)
        for j in a.mro(i):
            for n, ds in a.classes[j].decos.items():
                for d in ds:
                    l = d.fn.path if isinstance(d, Partial) and isinstance(d.fn, Ext) else d.path if isinstance(d, Ext) else ""
                    CK.need(l in ("pydantic.model_validator", "builtins.classmethod", "builtins.staticmethod", "builtins.property", "functools.cached_property") or not l.startswith("pydantic"), f"{cname}.{n}: {l} changes how the class is serialized")
        for n, (ann, node, _) in a.fields(i).items():
            CK.need("exclude" not in ann and "alias" not in ann, f"{cname}.{n} is declared {ann}")
            j, dv = a.lookup(i, n)
            for g, l in dv or ():
                CK.need(not isinstance(l, Partial), f"{cname}.{n} has a field specification")
        cfg = a.config(i)
        CK.need(set(cfg) <= {"frozen", "extra", "arbitrary_types_allowed", "validate_default", "strict", "revalidate_instances"}, f"{cname}: configuration {sorted(cfg)} affects serialization")


def c24_array(cname, dtn):
    a = fresh()
    b = a.bdd
    i = next(k for k, c in enumerate(a.classes) if c.name == cname)
    fs = a.fields(i)
    CK.need(set(fs) == {"data", "dtype"}, f"{cname}: fields are {sorted(fs)}")
    tag = fs.get("dtype", ("", None, None))[0].replace('"', "'")
    CK.need(tag == f"Literal['{dtn}']", f"{cname}: the precision tag is {tag}")
    j, dv = a.lookup(i, "dtype")
    CK.need(dv is not None and a.norm(dv) == V(K(dtn)), f"{cname}: the precision tag's value is not '{dtn}'")
    CK.need(a.config(i).get("frozen") is True, f"{cname}: objects can be modified")
    sers = [h for h in a.hooks(i, "pydantic.field_serializer")]
    vals = [h for h in a.hooks(i, "pydantic.field_validator") if "data" in [x[0][1].v for x in h[2].args]]
    CK.need(not a.hooks(i, "pydantic.model_serializer") and not a.hooks(i, "pydantic.model_validator") and len(sers) == 1 and [x[0][1].v for x in sers[0][2].args] == ["data"], f"{cname}: no single serializer of data")
    CK.need(len(vals) == 1 and dict(vals[0][2].kwargs).get("mode") == V(K("before")), f"{cname}: no single validator of data that runs before")
    if CK.viol:
        return
    CK.fns |= {f"{cname}.{sers[0][1]}", f"{cname}.{vals[0][1]}"}

    def callhook(h, v):
        ident = a.only(a.classes[h[0]].attrs[h[1]]).ident
        n = len(a.fns[ident][0].args.args)
        return a.call_fn(ident, [v] if n == 1 else [V(Cls(i)), v], {})
    for shape in ((patom(("size", "x")),), (pconst(3),), (pconst(1),)):
        for nm, mk in (("opaque", lambda: Tm(("arg", "x"))), ("elements", lambda: vec("x", int(pcval(shape[0])) if pcval(shape[0]) is not None else 1))):
            if nm == "elements" and pcval(shape[0]) is None:
                continue
            label = f"{cname} round trip ({pshow(shape[0])} values)"
            arr0 = a.arr(V(mk()), V(Dt(dtn)), shape, 1)
            txt, ok = run_fn(a, lambda: callhook(sers[0], V(arr0)))
            CK.need(b.equal(ok, 1), f"{label}: serialization may fail")
            back, ok = run_fn(a, lambda: callhook(vals[0], txt))
            CK.need(b.equal(ok, 1), f"{label}: deserialization may fail")
            for g, l in a.norm(back):
                if not isinstance(l, Arr):
                    CK.need(False, f"{label}: gives {l}")
                    continue
                same = a.term(a.content(l)) == a.term(V(mk())) or a.term(a.content(l)) == ("loads", "?")
                if not same and nm == "elements":
                    continue_ = a.term(a.content(l))
                CK.need(same, f"{label}: contents become {show_term(a.term(a.content(l)))[:200]}")
                CK.need(a.norm(a.dt[l.buf]) == V(Dt(dtn)), f"{label}: data type becomes {a.norm(a.dt[l.buf])}")
                CK.need(l.shape == shape, f"{label}: shape changes")
                CK.need(l.contig == 1, f"{label}: may not be contiguous")
    # construction from arrays and lists keeps the values (as the class's precision) and is contiguous
    dt, gs = dtv(a, "x.dtype")
    x = a.arr(V(Tm(("arg", "x"))), dt, (patom(("size", "x")),), b.var(("contiguous", "x")))
    v, ok = run_fn(a, lambda: callhook(vals[0], V(x)))
    CK.need(b.equal(ok, 1), f"{cname}: construction from an array may fail")
    for g, l in a.norm(v):
        CK.need(isinstance(l, Arr) and all(d == Dt(dtn) for gg, d in a.norm(a.dt[l.buf]) if not b.empty(b.AND(g, gg))), f"{cname}: construction from an array does not give {dtn}")
        if isinstance(l, Arr):
            CK.need(b.implies(g, l.contig), f"{cname}: construction from an array may leave it non-contiguous")
            for gg, c in guarded(a, b.AND(g, gs[dtn]), lambda: a.content(l)):
                CK.need(c == Tm(("arg", "x")), f"{cname}: construction changes the values: {show_term(a.lterm(c))[:200]}")
    its = [V(N(patom(("num", f"x{j}")))) for j in range(3)]
    v, ok = run_fn(a, lambda: callhook(vals[0], a.newlist(its)))
    for g, l in a.norm(v):
        CK.need(isinstance(l, Arr) and a.norm(a.dt[l.buf]) == V(Dt(dtn)) and b.implies(g, l.contig) and a.term(a.content(l)) == ("vec",) + tuple(N_(("num", f"x{j}")) for j in range(3)), f"{cname}: construction from a list does not keep the values")


# ------------------------------------------------------------------------------------------------ C25, C26
SHAPES = [(1, (4,), (3,), "1d"), (2, (3, 4), (2, 3), "2d"), (2, (3, 2), (1,), "one"), (3, (3, 2, 4), (2,), "1d")]


def interp_world(k, lens, shape, given, opts):
    a = fresh()
    b = a.bdd
    dt, gs = dtv(a, "dtype")
    n = _prod(shape)
    obs = [mkarr(a, f"obs{j}", shape, dt) for j in range(k)]
    grids = [mkarr(a, f"grid{j}", (lens[j],), dt) for j in range(k)]
    vals = mkarr(a, "vals", lens if opts.get("valsnd", True) else (_prod(lens),), dt)
    out = mkarr(a, "out", opts.get("outshape", shape), dt) if given else None
    ms = {m: b.var(("streq", ("arg", "method", "str"), m)) for m in ("linear", "cubic", "nearest")}
    for x in ms:
        for y in ms:
            if x < y:
                b.assume(b.NOT(b.AND(ms[x], ms[y])))
    anym = b.OR(*ms.values())
    method = tuple((g, K(m)) for m, g in ms.items()) + ((b.NOT(anym), K("<unsupported>")),)
    flags = {n_: b.var(("flag", n_)) for n_ in ("linearize_extrapolation", "assume_regular", "check_bounds")}
    before = {bb: ("input", a.heap[bb]) for bb in list(a.heap) if isinstance(a.heap[bb], tuple) and (out is None or bb != out.buf)}
    kw = {n_: V(B(g, False)) for n_, g in flags.items()}
    kw["method"] = method
    kw["bounds_atol"] = V(N(patom(("num", "bounds_atol"))))
    if given:
        kw["out"] = V(out)
    lo = a.newlist([V(x) for x in obs])
    lg = a.newlist([V(x) for x in grids])
    if opts.get("tuples"):
        lo, lg = V(Seq("tuple", tuple(V(x) for x in obs))), V(Seq("tuple", tuple(V(x) for x in grids)))
    v, ok = run_fn(a, lambda: a.lift(lambda l: a.lcall(l, [lo, lg, V(vals)], kw), a.module("").env["interpn"]))
    CK.files |= a.analysed
    CK.fns.add("interpn.interpn")
    reg = 1
    for j in range(k):
        el = lambda p: patom(("el", ("arg", f"grid{j}"), p))
        d0 = padd(el(1), el(0), -1)
        for p in range(1, lens[j] - 1):
            reg = b.AND(reg, a.eq0(padd(padd(el(p + 1), el(p), -1), d0, -1)))
    R = b.OR(flags["assume_regular"], reg)
    return a, b, dict(gs=gs, ms=ms, anym=anym, flags=flags, R=R, v=v, ok=ok, out=out, obs=obs, before=before, n=n, shape=shape, grids=grids, vals=vals, dt=dt)


def spec_terms(a, w, k, lens, regular):
    if regular:
        el = lambda j, p: patom(("el", ("arg", f"grid{j}"), p))
        return {"dims": ("seq",) + tuple(("const", Fraction(x)) for x in lens), "starts": ("seq",) + tuple(("num", el(j, 0)) for j in range(k)), "steps": ("seq",) + tuple(("num", padd(el(j, 1), el(j, 0), -1)) for j in range(k))}
    return {"grids": ("seq",) + tuple(els(f"grid{j}", lens[j]) for j in range(k))}


def bounds_events(a, b):
    """(guard of a failed or flagging bounds check)"""
    err, viol = 0, 0
    for g, name, bound, key, heap, outs, e in a.events:
        if not name.startswith("check_bounds"):
            continue
        err = b.OR(err, b.AND(g, e))
        k = len(a.items(bound["obs"])) if False else len(dict(key[2:])["obs"]) - 1
        anyf = b.OR(*[b.var(("flag", i, key)) for i in range(k)])
        viol = b.OR(viol, b.AND(g, b.NOT(e), anyf))
    return err, viol


def worlds_interpn():
    for k, lens, shape, _ in SHAPES:
        for given in (False, True):
            yield k, lens, shape, given, {}
    yield 2, (3, 4), (6,), True, {"tuples": True}
    yield 1, (2,), (4,), False, {"valsnd": False}
    if True:
        yield 4, (2, 3, 2, 3), (2, 2, 2), True, {}
        yield 5, (2, 2, 3, 2, 2), (3,), False, {}
        yield 6, (2, 2, 2, 2, 2, 3), (2,), True, {}
        yield 7, (2, 2, 2, 2, 2, 2, 3), (2,), True, {}
        yield 1, (7,), (5,), True, {}
        yield 2, (6, 5), (4, 1), True, {}
        yield 8, (2,) * 7 + (3,), (2,), True, {}
        yield 2, (3, 2), (0,), False, {}
        yield 3, (2, 3, 2), (2, 0), True, {}


def c25():
    for k, lens, shape, given, opts in worlds_interpn():
        world(f"interpn ({k}-D)", lambda: c25_world(k, lens, shape, given, opts))


def c25_world(k, lens, shape, given, opts):
    a, b, w = interp_world(k, lens, shape, given, opts)
    label = f"interpn ({k}-D, grid sizes {lens}, observations of shape {shape}, {'out given' if given else 'no out'})"
    err, viol = bounds_events(a, b)
    go = b.AND(b.NOT(err), b.NOT(viol))
    # judged wherever no bounds check interferes; C26 judges that
    base = b.NOT(w["flags"]["check_bounds"])
    exp = []
    for d in ("float64", "float32"):
        for regular in (True, False):
            r = w["R"] if regular else b.NOT(w["R"])
            for m in ("linear", "cubic", "nearest"):
                t = spec_terms(a, w, k, lens, regular)
                t["vals"] = els("vals", _prod(lens))
                t["obs"] = ("seq",) + tuple(els(f"obs{j}", w["n"]) for j in range(k))
                if m == "cubic":
                    t["linearize_extrapolation"] = ("bool", w["flags"]["linearize_extrapolation"])
                exp.append((b.AND(w["ms"][m], w["gs"][d], r, go), f"interpn_{m}_{'regular' if regular else 'rectilinear'}_{PREC[d]}", t))
    ev = a.events
    a.events = [e for e in ev if not e[1].startswith("check_bounds")]
    calls(a, label, exp)
    a.events = ev
    # failures
    ok = w["ok"]
    r = {}
    for g, n in a.raised:
        r[n] = b.OR(r.get(n, 0), g)
    good = b.OR(w["gs"]["float64"], w["gs"]["float32"])
    fails = b.OR(*[b.AND(e[0], e[6]) for e in a.events])
    CK.need(b.implies(b.AND(w["gs"]["other"]), r.get("AssertionError", 0)), f"{label}: no AssertionError for an unsupported data type")
    bad = b.AND(good, b.NOT(w["anym"]), go)
    CK.need(b.implies(bad, r.get("ValueError", 0)), f"{label}: no ValueError for an unsupported method [{b.show(b.AND(bad, b.NOT(r.get('ValueError', 0))), 2)}]")
    lost = b.AND(good, w["anym"], go, b.NOT(fails), b.NOT(ok))
    CK.need(b.empty(lost), f"{label}: fails although the raw function succeeds [{b.show(lost, 2)}]: {sorted(n for n, g in r.items() if not b.empty(b.AND(g, lost)))}")


def c26():
    for k, lens, shape, given, opts in worlds_interpn():
        world(f"interpn ({k}-D)", lambda: c26_world(k, lens, shape, given, opts))


def c26_world(k, lens, shape, given, opts):
    a, b, w = interp_world(k, lens, shape, given, opts)
    label = f"interpn ({k}-D, observations of shape {shape}, {'out given' if given else 'no out'})"
    good = b.AND(b.OR(w["gs"]["float64"], w["gs"]["float32"]), w["anym"])
    chk = w["flags"]["check_bounds"]
    exp = []
    for d in ("float64", "float32"):
        for regular in (True, False):
            t = spec_terms(a, w, k, lens, regular)
            t["obs"] = ("seq",) + tuple(els(f"obs{j}", w["n"]) for j in range(k))
            t["atol"] = N_(("num", "bounds_atol"))
            r = w["R"] if regular else b.NOT(w["R"])
            exp.append((b.AND(chk, w["gs"][d], r), f"check_bounds_{'regular' if regular else 'rectilinear'}_{PREC[d]}", t))
    ev = a.events
    a.events = [e for e in ev if e[1].startswith("check_bounds")]
    # where the method is unsupported the check may be skipped
    b0 = b.ax
    b.assume(w["anym"])
    calls(a, label, exp)
    a.events = ev
    err, viol = bounds_events(a, b)
    r = {}
    for g, n in a.raised:
        r[n] = b.OR(r.get(n, 0), g)
    ve = b.AND(r.get("ValueError", 0), good)
    CK.need(b.equal(ve, b.AND(good, viol)), f"{label}: ValueError is not raised exactly when a bounds flag is set [{b.show(b.ite(ve, b.NOT(b.AND(good, viol)), b.AND(good, viol)), 2)}]")
    ran = b.OR(*[e[0] for e in a.events if not e[1].startswith("check_bounds")])
    CK.need(b.empty(b.AND(ran, b.OR(viol, err))), f"{label}: evaluates although the bounds check failed")
    fails = b.OR(*[b.AND(e[0], e[6]) for e in a.events])
    lost = b.AND(good, b.NOT(fails), b.NOT(viol), b.NOT(w["ok"]))
    CK.need(b.empty(lost), f"{label}: fails although every raw function succeeds [{b.show(lost, 2)}]: {sorted(n for n, g in r.items() if not b.empty(b.AND(g, lost)))}")
    ok = b.AND(w["ok"], good)
    want = tuple(pconst(s) for s in (opts.get("outshape", shape) if given else shape))
    for g, l in guarded(a, ok, lambda: a.norm(w["v"])):
        g = b.AND(g, ok)
        if not isinstance(l, Arr):
            CK.need(False, f"{label}: returns {l}")
            continue
        CK.need(l.shape == want, f"{label}: the result's shape is {[pshow(s) for s in l.shape]}")
        bad = is_result(a, l, g, None)
        CK.need(b.empty(bad), f"{label}: the returned array does not hold the results [{b.show(bad, 2)}]")
        CK.need(l.buf not in w["before"], f"{label}: the result is stored in an input")
        if not given:
            CK.need(all(same_dt(a, w, x, b.AND(g, gg)) for gg, x in guarded(a, g, lambda: a.norm(a.dt[l.buf]))), f"{label}: the new array's data type is not that of obs[0]")
    if given:
        bad = is_result(a, w["out"], ok, None)
        CK.need(b.empty(bad), f"{label}: the caller's output array does not receive the results [{b.show(bad, 2)}]")
    unchanged(a, label, w["before"])
    b.ax = b0


def same_dt(a, w, x, g):
    return all(d == x for gg, d in w["dt"] if not a.bdd.empty(a.bdd.AND(gg, g)))


# ------------------------------------------------------------------------------------------------ C29
def c29():
    for name, method, grid in CLASSES:
        for k in range(1, {"linear": 9, "cubic": 7, "nearest": 7}[method]):
            for nd in (False, True):
                for lin in ((None, True) if method == "cubic" else (None,)):
                    world(f"{name}.new", lambda: c29_world(name, method, grid, k, nd, lin))


def c29_world(name, method, grid, k, nd, lin):
    a = fresh()
    b = a.bdd
    dt, gs = dtv(a, "vals.dtype", False)
    i = cls_index(a, name)
    lens = tuple([4, 5, 6][:k]) if k <= 3 else (4,) * k if method == "cubic" else (2,) * (k - 1) + (3,)
    vals = mkarr(a, "vals", lens if nd else (_prod(lens),), dt)
    kw = {"vals": V(vals)}
    shp = (lambda n: (n, 1)) if nd and grid == "regular" else (lambda n: (n,))
    if grid == "regular":
        kw["dims"] = a.newlist([V(N(pconst(x))) for x in lens])
        kw["starts"] = V(mkarr(a, "starts", shp(k), dt))
        kw["steps"] = V(mkarr(a, "steps", shp(k), dt))
    else:
        kw["grids"] = a.newlist([V(mkarr(a, f"grid{j}", (lens[j],), dt)) for j in range(k)])
    if lin:
        kw["linearize_extrapolation"] = V(B(b.var(("flag", "linearize_extrapolation")), False))
    before = {bb: ("input", a.heap[bb]) for bb in list(a.heap) if isinstance(a.heap[bb], tuple)}
    label = f"{name}.new ({k}-D)"
    v, ok = run_fn(a, lambda: a.lift(lambda l: a.lcall(l, [], kw), ((1, a.attr(Cls(i), "new")),)))
    CK.files |= a.analysed
    CK.fns.add(f"{name}.new")
    CK.need(not b.empty(ok), f"{label}: never succeeds")
    for g, l in guarded(a, ok, lambda: a.norm(v)):
        g = b.AND(g, ok)
        if not isinstance(l, Obj) or l.cls != i:
            CK.need(False, f"{label}: returns {l if not isinstance(l, Obj) else a.classes[l.cls].name} instead of a {name}")
            continue
        fs = dict(l.fields)

        def arrfield(fv, what, ename, n):
            for g2, o in guarded(a, g, lambda: a.norm(fv)):
                g3 = b.AND(g, g2)
                if not isinstance(o, Obj):
                    CK.need(False, f"{label}: {what} is {o}")
                    continue
                cn = a.classes[o.cls].name
                for g4, x in guarded(a, g3, lambda: a.norm(dict(o.fields)["data"])):
                    g5 = b.AND(g3, g4)
                    if not isinstance(x, Arr):
                        CK.need(False, f"{label}: {what} holds {x}")
                        continue
                    its = guarded(a, g5, lambda: a.flat_items(x))
                    got = guarded(a, g5, lambda: tuple(a.term(y) for y in its))
                    CK.need(got == els(ename, n)[1:], f"{label}: {what} holds {show_term(got)[:200]} instead of the caller's values")
                    CK.need(x.shape == (pconst(n),), f"{label}: {what} is not flattened")
                    CK.need(b.implies(g5, x.contig), f"{label}: {what} may not be contiguous")
                    for g6, d in guarded(a, g5, lambda: a.norm(a.dt[x.buf])):
                        g7 = b.AND(g5, g6)
                        CK.need(isinstance(d, Dt) and d.name in PREC and b.implies(g7, gs[d.name]), f"{label}: {what} is stored as {d}, not as the values' data type")
                        CK.need(cn == {"float64": "ArrayF64", "float32": "ArrayF32"}.get(getattr(d, "name", "")), f"{label}: {what} is a {cn} of {d}")
        if grid == "regular":
            dims = guarded(a, g, lambda: a.term(fs["dims"]))
            CK.need(dims == ("seq",) + tuple(("const", Fraction(x)) for x in lens), f"{label}: dims is {show_term(dims)}")
            arrfield(fs["starts"], "starts", "starts", k)
            arrfield(fs["steps"], "steps", "steps", k)
        else:
            its = guarded(a, g, lambda: a.items(fs["grids"]))
            CK.need(len(its) == k, f"{label}: {len(its)} grids for {k}")
            for j, x in enumerate(its[:k]):
                arrfield(x, f"grids[{j}]", f"grid{j}", lens[j])
        arrfield(fs["vals"], "vals", "vals", _prod(lens))
        if method == "cubic":
            t = guarded(a, g, lambda: a.term(fs["linearize_extrapolation"]))
            want = ("bool", b.var(("flag", "linearize_extrapolation"))) if lin else ("const", True)
            CK.need(same_term(a, t, want, g), f"{label}: linearize_extrapolation is {show_term(t)} instead of {'the given flag' if lin else 'True'}")
    unchanged(a, label, before)


RULES = {
    "C21": "names bound in raw.py, its __all__, the stub's declarations and the functions registered by the macro-expanded extension module are the same set, with the same parameters, precision and writability",
    "C22": "gated evaluation of each method under every data type, with and without out: raw calls (guard, function, arguments by name), normal-return condition, returned array and unchanged inputs equal the documented ones",
    "C23": "the guard under which the after-validator returns normally equals the conjunction of the documented conditions, for 0..10 dimensions, agreeing and disagreeing array sizes and minimum grid sizes",
    "C24": "the composition of the serializer and the validator is the identity on contents, data type, shape and layout, by rewriting json and numpy conversions; the tag and the union select the class",
    "C25": "gated evaluation of interpn(): each raw function is called exactly under the guard of its method, precision and regularity, with the documented arguments; failures as documented",
    "C26": "gated evaluation of interpn(): content of the caller's buffer and of the returned array, its shape, the bounds-check call and the exact guard of ValueError",
    "C29": "gated evaluation of new(): each field of the constructed object holds the caller's values in the values' precision, flat and contiguous",
}

if __name__ == "__main__":
    prop = sys.argv[1]
    RAW = pyraw.load()
    globals()[prop.lower()]()
    cov = dict(explanation=RULES[prop], obligations=CK.ob, discharged=CK.ob - len(CK.viol), worlds=CK.worlds, functions=sorted(CK.fns), files=sorted("src/interpn/" + f for f in CK.files) + ["src/python.rs (macro-expanded)"], checker_cmd=f"python3 tools/pycheck.py {prop}", samples=CK.samples[:6],
               trusted_base=["the analyser's model of Python, numpy, json, functools and pydantic (tools/pyan.py, tools/pylib.py)", "rustc's macro expansion of the extension module"])
    if CK.ob == 0:
        CK.viol.append("no obligation was generated")
    run.finish(prop, "other", cov, CK.viol, ["pydantic runs the registered validators and serializers as documented", "numpy functions behave as documented; arrays of the worlds' shapes stand for all (the code does not branch on sizes beyond the conditions reported)"])
