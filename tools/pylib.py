"""Model of the Python builtins, numpy, json, functools and pydantic functions used by the analysed package."""
import ast
from fractions import Fraction
from pyval import *


def _an():
    import pyan
    return pyan


def gatelen(self, v):
    def f(l):
        P = _an()
        if isinstance(l, P.Ref):
            return self.lift(f, self.heap[l.id])
        if isinstance(l, (Seq, Dic)):
            return N(pconst(len(l.items)))
        if isinstance(l, Arr):
            if not l.shape:
                self.rz("TypeError")
                return ()
            return N(l.shape[0])
        if isinstance(l, K) and isinstance(l.v, str):
            return N(pconst(len(l.v)))
        if isinstance(l, P.MInst):
            return N(pconst(len(self.heap[l.id])))
        if isinstance(l, (N, B, K)):
            self.rz("TypeError")
            return ()
        self.fail(f"len of {l}")
    return self.lift(f, v)


def shape_of(self, l):
    """shape argument -> tuple of polynomials"""
    P = _an()
    if isinstance(l, P.Ref):
        l = self.only(self.heap[l.id])
    if isinstance(l, Seq):
        return tuple(self.num(self.only(x)) for x in l.items)
    p = self.num(l)
    if p is None:
        self.fail(f"shape {l}")
    return (p,)


def dt_of(self, v):
    """dtype argument -> gated Dt"""
    def f(l):
        d = self.dtname(l)
        if d:
            return Dt(d[0])
        if isinstance(l, K) and isinstance(l.v, str):
            return Dt({"f8": "float64", "f4": "float32", "float": "float64", "double": "float64", "single": "float32", "d": "float64", "f": "float32", "int": "int64", "?": "bool", "<f8": "float64", "<f4": "float32"}.get(l.v, l.v))
        if isinstance(l, K) and l.v is None:
            return Dt("float64")
        self.fail(f"dtype {l}")
    return self.lift(f, v)


def fill(self, shape, leaf_):
    n = pconst(1)
    for s in shape:
        n = pmul(n, s)
    c = pcval(n)
    P = _an()
    if c is None or c > 4096:
        return V_(Tm(("fill", self.lterm(leaf_))))
    return V_(P.Vec((V_(leaf_),) * int(c)))


def V_(l, g=1):
    return ((g, l),)


def infer_dt(self, items):
    """dtype numpy infers for a flat list of leaves"""
    ds = set()
    for x in items:
        for g, l in self.norm(x):
            if isinstance(l, B):
                ds.add("bool")
            elif isinstance(l, N):
                ds.add("num:" + ("el" if self.isnp(l.p) else "int" if pint(l.p) else "float"))
            elif isinstance(l, K) and isinstance(l.v, float):
                ds.add("num:float")
            else:
                ds.add("?")
    if ds == {"bool"}:
        return V_(Dt("bool"))
    if ds == {"num:int"}:
        return V_(Dt("int64"))
    if not ds or ds == {"num:float"}:
        return V_(Dt("float64"))
    return V_(Dt("inferred"))


def mkarray(self, v, dt, copy=False):
    """np.array / np.asarray"""
    P = _an()

    def f(l):
        if isinstance(l, Arr):
            if dt is None:
                return self.arr(self.content(l), self.norm(self.dt[l.buf]), l.shape) if copy else l
            d = dt_of(self, dt)
            src = self.norm(self.dt[l.buf])

            def g(s, t):
                if s == t and not copy:
                    return l
                return self.arr(self.castc(self.content(l), V_(s), V_(t)), V_(t), l.shape)
            return self.lift(g, src, d)
        if isinstance(l, P.Ref) or isinstance(l, Seq):
            its = self.items(V_(l))
            kinds = {type(x) for i in its for _, x in self.norm(i)}
            if kinds <= {N, B, K, Tm}:
                d = dt_of(self, dt) if dt is not None else infer_dt(self, its)
                # elements taken from arrays of another type are converted
                its = [self.lift(lambda e: _castel(self, e, d), x) for x in its]
                return self.arr(V_(P.Vec(tuple(its))), d, (pconst(len(its)),))
            if kinds == {Arr}:
                rows = [self.flat_items(self.only(x)) for x in its]
                shs = {self.only(x).shape for x in its}
                if len(shs) != 1:
                    self.rz("ValueError")
                    return ()
                d = dt_of(self, dt) if dt is not None else self.dt[self.only(its[0]).buf]
                return self.arr(V_(P.Vec(tuple(e for r in rows for e in r))), d, (pconst(len(its)),) + shs.pop())
            self.fail("np.array of nested values")
        if isinstance(l, (N, B)):
            d = dt_of(self, dt) if dt is not None else infer_dt(self, [V_(l)])
            return self.arr(V_(P.Vec((V_(l),))), d, ())
        if isinstance(l, Tm):
            # opaque sequence (for example decoded JSON)
            if l.t[0] == "seq" and all(x[0] in ("num", "const") for x in l.t[1:]):
                return mkarray(self, self.newlist([V_(N(x[1]) if x[0] == "num" else N(pconst(x[1]))) for x in l.t[1:]]), dt, copy)
            if l.t[0] == "tolist":
                d0 = l.t[3]
                d = dt_of(self, dt) if dt is not None else V_(Dt("inferred"))

                def h(t):
                    same = d0 == self.lterm(t) or (d0 == ("leaf", repr(Dt("float32").key())) and t.name == "float64")
                    return self.arr(V_(Tm(l.t[1] if same else ("cast", self.lterm(t), l.t[1]))), V_(t), l.t[2])
                return self.lift(h, d)
            d = dt_of(self, dt) if dt is not None else V_(Dt("inferred"))
            return self.arr(V_(Tm(("array", l.t))), d, (patom(("shape", l.t)),))
        if isinstance(l, K):
            self.rz("TypeError")
            return ()
        self.fail(f"array of {l}")
    return self.lift(f, v)


def _castel(self, e, d):
    """an element stored in a new array of type d: exact when the element comes from an array of that type"""
    return e


def isinst(self, v, cls):
    P = _an()
    b = self.bdd

    def one(l, c):
        if isinstance(c, Seq):
            return B(b.OR(*[self.truth(self.lift(lambda x: one(l, x), y)) for y in c.items]), False)
        if isinstance(c, Cls):
            return B(1 if isinstance(l, Obj) and c.ident in self.mro(l.cls) or isinstance(l, P.MInst) and c.ident in self.mro(l.id[1]) else 0, False)
        if isinstance(c, P.Ann):
            self.fail("isinstance with a type expression")
        n = c.path.split(".")[-1]
        if isinstance(l, P.Ref):
            s = self.only(self.heap[l.id])
            return B(1 if n in ({"dict", "Mapping"} if isinstance(s, Dic) else {"list", "Sequence", "Iterable"}) else 0, False)
        if isinstance(l, Tm):
            k = l.t[0]
            if k in ("dumps", "str", "concat") or k == "arg" and len(l.t) > 2 and l.t[2] == "str":
                return B(1 if n in ("str", "Sequence") else 0, False)
            if k == "arg" and len(l.t) > 2:
                return B(1 if n == l.t[2] or l.t[2] == "list" and n in ("Sequence", "Iterable") else 0, False)
            if k == "tolist":
                return B(1 if n in ("list", "Sequence", "Iterable") else 0, False)
            self.fail(f"isinstance of {l}")
        ok = {Arr: {"ndarray"}, K: ({"str", "Sequence"} if isinstance(getattr(l, "v", None), str) else {"NoneType"} if getattr(l, "v", 1) is None else {"float"}), B: {"bool", "int"}, N: {"int", "float", "Number", "Real", "floating"}, Seq: {getattr(l, "kind", ""), "Sequence", "Iterable"}, Dt: {"dtype"}, Dic: {"dict", "Mapping"}}.get(type(l), set())
        if isinstance(l, B) and l.npy:
            ok = {"bool_"}
        return B(1 if n in ok else 0, False)
    return self.lift(one, v, cls)


def arr_like(self, a, args, kwargs, leaf_):
    dt = kwargs.get("dtype") or (args[1] if len(args) > 1 else None)
    sh = kwargs.get("shape")

    def f(l):
        P = _an()
        if not isinstance(l, Arr):
            l = self.only(mkarray(self, V_(l), None))
        d = dt_of(self, dt) if dt is not None and dt != V_(K(None)) else self.norm(self.dt[l.buf])
        s = l.shape if sh is None else shape_of(self, self.only(sh))
        x = leaf_
        if all(isinstance(q, Dt) and q.name == "bool" for _, q in d) and isinstance(x, N):
            x = B(0 if not pcval(x.p) else 1, True)
        # the memory order of a non-C-contiguous multi-dimensional prototype is kept (order='K')
        ct = 1
        if len(s) > 1 and sh is None and not (isinstance(self.onlyk(kwargs.get("order")), K) and self.onlyk(kwargs.get("order")).v == "C"):
            ct = l.contig
        return self.arr(fill(self, s, x), d, s, ct)
    return self.lift(f, a)


def kw(self, args, kwargs, i, name, default=None):
    if len(args) > i:
        return args[i]
    return kwargs.get(name, default)


def reorder(self, a, order):
    o = "C" if order is None else self.only(order).v
    return o


def flat_copy(self, a, order=None):
    o = reorder(self, a, order)
    c = self.content(a)
    if o != "C" and len(a.shape) != 1:
        c = self.lift(lambda l: Tm(("reorder", o, self.lterm(l))), c)
    return self.arr(c, self.norm(self.dt[a.buf]), (self.asize(a),))


def flat_view(self, a, order=None):
    """ravel: a view when contiguous, a copy otherwise"""
    o = reorder(self, a, order)
    if len(a.shape) == 1 and o in "CFAK":
        v = Arr(a.buf, a.shape, 1, a.view)
        if a.contig == 1:
            return a
    elif o != "C":
        self.fail("ravel order " + o)
    else:
        v = Arr(a.buf, (self.asize(a),), 1, a.view)
    return gate(self, a.contig, lambda: V_(v), lambda: V_(flat_copy(self, a)))


def gate(self, g, yes, no):
    ry, rn, l1, l2 = self.branch(g, yes, no)
    return tuple((self.bdd.AND(x, l1), l) for x, l in ry) + tuple((self.bdd.AND(x, l2), l) for x, l in rn)


def reshape(self, a, shape):
    n = self.asize(a)
    if any(pcval(s) == -1 for s in shape):
        r = pconst(1)
        for s in shape:
            if pcval(s) != -1:
                r = pmul(r, s)
        q = n if pcval(r) == 1 else pconst(pcval(n) / pcval(r)) if pcval(n) is not None and pcval(r) else None
        if q is None:
            self.fail("reshape")
        shape = tuple(q if pcval(s) == -1 else s for s in shape)
    m = pconst(1)
    for s in shape:
        m = pmul(m, s)
    if m != n:
        if pcval(m) is not None and pcval(n) is not None:
            self.rz("ValueError")
            return ()
        self.fail("reshape of unknown sizes")
    if tuple(shape) == a.shape:
        return V_(a)
    return gate(self, a.contig, lambda: V_(Arr(a.buf, tuple(shape), 1, a.view)), lambda: V_(self.arr(self.content(a), self.norm(self.dt[a.buf]), shape)))


def contiguous(self, v, dt=None):
    v = mkarray(self, v, dt)

    def f(l):
        if not l.shape:
            l = Arr(l.buf, (pconst(1),), l.contig, l.view)
        return gate(self, l.contig, lambda: V_(l), lambda: V_(self.arr(self.content(l), self.norm(self.dt[l.buf]), l.shape)))
    return self.lift(f, v)


def flat_all(self, v, isall):
    b = self.bdd

    def f(l):
        if isinstance(l, Arr):
            g = [self.truth(x) for x in self.flat_items(l)]
            return B(b.AND(*g) if isall else b.OR(*g), True)
        P = _an()
        if isinstance(l, (P.Ref, Seq)):
            its = self.items(V_(l))
            if any(isinstance(x, Arr) for i in its for _, x in i):
                g = [self.truth(self.lift(lambda q: flat_all(self, V_(q), isall), i)) for i in its]
            else:
                g = [self.truth(i) for i in its]
            return B(b.AND(*g) if isall else b.OR(*g), True)
        return B(self.truth(V_(l)), True)
    return self.lift(f, v)


def seq_all(self, v, isall):
    """builtin all/any: stops at the deciding element"""
    b = self.bdd

    def f(l):
        stop = 0
        for x in self.items(V_(l)):
            t = self.truth(x)
            s = b.AND(self.live, b.NOT(t) if isall else t)
            stop = b.OR(stop, s)
            self.live = b.AND(self.live, b.NOT(s))
            if b.empty(self.live):
                self.live = 0
                break
        self.live = b.OR(self.live, stop)
        return B(b.NOT(stop) if isall else stop, False)
    return self.lift(f, v)


def ext(self, path, args, kwargs):
    P = _an()
    b = self.bdd
    top, _, last = path.rpartition(".")
    if path.startswith("rawext."):
        return self.raw(last, args, kwargs)
    if top == "builtins":
        return builtin(self, last, args, kwargs)
    if top in ("numpy", "numpy.core", "numpy.lib"):
        return npfn(self, last, args, kwargs)
    if top.startswith("pydantic") or path.startswith("pydantic"):
        return Partial(Ext(path), tuple((V_(Seq("arg", (a,)))[0] if False else a) for a in args), tuple(kwargs.items()))
    if path == "functools.reduce":
        f, it = args[0], self.items(args[1])
        if len(args) > 2:
            acc = args[2]
        else:
            if not it:
                self.rz("TypeError")
                return ()
            acc, it = it[0], it[1:]
        for x in it:
            acc = self.lift(lambda l: self.lcall(l, [acc, x], {}), f)
        return acc
    if path == "functools.partial":
        return self.lift(lambda l: Partial(l, tuple(args[1:]), tuple(kwargs.items())), args[0])
    if path in ("functools.lru_cache", "functools.wraps"):
        return Partial(Ext(path), tuple(args), tuple(kwargs.items()))
    if top == "operator":
        ops = {"mul": ast.Mult(), "add": ast.Add(), "sub": ast.Sub(), "eq": None, "and_": ast.BitAnd(), "or_": ast.BitOr(), "truediv": ast.Div()}
        if last in ops and ops[last]:
            return self.binop(ops[last], args[0], args[1])
        cm = {"eq": ast.Eq(), "ne": ast.NotEq(), "gt": ast.Gt(), "ge": ast.GtE(), "lt": ast.Lt(), "le": ast.LtE(), "is_": ast.Is(), "is_not": ast.IsNot()}
        if last in cm:
            return self.compare(cm[last], args[0], args[1])
        if last == "getitem":
            return self.getitem(args[0], args[1])
        if last == "not_":
            return B(b.NOT(self.truth(args[0])), False)
        if last in ("attrgetter", "itemgetter") and len(args) == 1:
            return Partial(Ext("operator." + last + "_"), (args[0],), ())
        if last == "attrgetter_":
            r = args[1]
            for nm in self.only(args[0]).v.split("."):
                r = self.lift(lambda l: self.attr(l, nm), r)
            return r
        if last == "itemgetter_":
            return self.getitem(args[1], args[0])
    if path == "math.prod":
        acc = V_(N(pconst(1)))
        for x in self.items(args[0]):
            acc = self.binop(ast.Mult(), acc, x)
        return acc
    if path == "json.dumps":
        if kwargs and set(kwargs) - {"separators", "allow_nan", "indent"}:
            self.fail("json.dumps options")

        def dump(l):
            if isinstance(l, Tm):
                return Tm(("dumps", l.t))
            return Tm(("dumps", self.lterm(l)))
        return self.lift(dump, args[0])
    if path == "json.loads":
        if kwargs:
            self.fail("json.loads options")

        def load(l):
            if isinstance(l, Tm):
                return Tm(l.t[1]) if l.t[0] == "dumps" else Tm(("loads", l.t))
            self.rz("TypeError")
            return ()
        return self.lift(load, args[0])
    if path == "importlib.util.find_spec":
        return Ext("modulespec")
    if path == "importlib.metadata.version":
        return Tm(("version", self.term(args[0])))
    if path in ("typing.cast",):
        return args[1]
    if path == "itertools.chain":
        return self.newlist([x for a in args for x in self.items(a)])
    if path == "itertools.product":
        out = [()]
        for a in args:
            its = self.items(a)
            out = [o + (i,) for o in out for i in its]
        return self.newlist([V_(Seq("tuple", o)) for o in out])
    if path == "itertools.pairwise":
        its = self.items(args[0])
        return self.newlist([V_(Seq("tuple", (x, y))) for x, y in zip(its, its[1:])])
    if top == "numpy.dtypes" or path.startswith("typing") or path.startswith("collections.abc") or path.startswith("numpy.typing"):
        return P.Ann(path)
    if path == "dataclasses.dataclass":
        return Partial(Ext(path), tuple(args), tuple(kwargs.items())) if not args else args[0]
    self.fail("library function " + path)


def builtin(self, n, args, kwargs):
    P = _an()
    b = self.bdd
    if n in P.EXCS:
        return Exc(n)
    if n == "len":
        return gatelen(self, args[0])
    if n == "range":
        vs = []
        for a in args:
            l = self.norm(a)
            if len(l) != 1:
                return self.lift(lambda *ls: builtin(self, "range", [V_(x) for x in ls], {}), *args)
            p = self.num(l[0][1])
            c = pcval(p) if p is not None else None
            if c is None:
                self.fail("range over an unknown count")
            vs.append(int(c))
        return Seq("range", tuple(V_(N(pconst(i))) for i in range(*vs)))
    if n == "zip":
        its = [self.items(a) for a in args]
        strict = "strict" in kwargs and self.truth(kwargs["strict"]) == 1
        if strict and len({len(i) for i in its}) > 1:
            self.rz("ValueError")
            return ()
        return self.newlist([V_(Seq("tuple", t)) for t in zip(*its)])
    if n == "enumerate":
        st = self.intval(self.only(kw(self, args, kwargs, 1, "start", V_(N(())))))
        return self.newlist([V_(Seq("tuple", (V_(N(pconst(i + st))), x))) for i, x in enumerate(self.items(args[0]))])
    if n in ("list", "tuple", "set", "frozenset", "iter", "reversed"):
        def f(l):
            its = self.items(V_(l))
            if n == "reversed":
                its = its[::-1]
            return Seq(n, tuple(its)) if n in ("tuple", "set", "frozenset") else self.newlist(its)
        return self.lift(f, args[0]) if args else (self.newlist([]) if n == "list" else Seq(n, ()))
    if n == "dict":
        items = []
        if args:
            l = self.only(args[0])
            c = self.only(self.heap[l.id]) if isinstance(l, P.Ref) else l
            if isinstance(c, Dic):
                items = list(c.items)
            else:
                for it in self.items(args[0]):
                    k, v = self.items(it)
                    items.append((self.only(k), v))
        items += [(K(k), v) for k, v in kwargs.items()]
        return self.newdict(items)
    if n == "isinstance":
        return isinst(self, args[0], args[1])
    if n in ("all", "any"):
        return seq_all(self, args[0], n == "all")
    if n == "bool":
        return B(self.truth(args[0]), False) if args else B(0, False)
    if n in ("int", "float"):
        def f(l):
            if isinstance(l, B):
                return ((l.g, N(pconst(1))), (b.NOT(l.g), N(())))
            if isinstance(l, N):
                if n == "int" and not pint(l.p):
                    return N(patom(("int", ("trunc", l.p))))
                # float() of an element removes the numpy scalar type but keeps the value
                return l
            if isinstance(l, Arr) and pcval(self.asize(l)) == 1:
                return self.flat_items(l)[0]
            if isinstance(l, K) and isinstance(l.v, str) and l.v in ("nan", "inf", "-inf"):
                return K(float(l.v))
            if isinstance(l, Tm):
                return Tm((n, l.t))
            self.rz("TypeError")
            return ()
        return self.lift(f, args[0])
    if n in ("str", "repr"):
        return self.lift(self.tostr, args[0])
    if n == "sum":
        acc = args[1] if len(args) > 1 else V_(N(()))
        for x in self.items(args[0]):
            acc = self.binop(ast.Add(), acc, x)
        return acc
    if n in ("map", "filter"):
        its = [self.items(a) for a in args[1:]]
        out = []
        if n == "filter":
            for x in its[0]:
                t = self.truth(x if self.norm(args[0]) == V_(K(None), self.live) else self.lift(lambda l: self.lcall(l, [x], {}), args[0]))
                out.append((b.AND(self.live, t), x))
            return self.complist(out)
        for t in zip(*its):
            out.append(self.lift(lambda l: self.lcall(l, list(t), {}), args[0]))
        return self.newlist(out)
    if n == "getattr":
        def f(l, nm):
            if isinstance(nm, Tm):
                if len(args) > 2:
                    self.fail("getattr with a default and an unknown name")
                self.rz("AttributeError")
                return ()
            if len(args) > 2:
                lst = []
                self.tries.append(lst)
                r = self.attr(l, nm.v)
                r = V_(r) if isinstance(r, Leaf) else r
                self.tries.pop()
                g = b.OR(*[x for x, _ in lst])
                if not b.empty(g):
                    self.live = b.OR(self.live, g)
                    r = tuple(r) + tuple((b.AND(gg, g), l2) for gg, l2 in args[2])
                return r
            return self.attr(l, nm.v)
        return self.lift(f, args[0], args[1])
    if n == "hasattr":
        def f(l, nm):
            lst = []
            self.tries.append(lst)
            self.attr(l, nm.v)
            self.tries.pop()
            bad = b.OR(*[x for x, _ in lst])
            self.live = b.OR(self.live, bad)
            return B(b.NOT(bad), False)
        return self.lift(f, args[0], args[1])
    if n in ("min", "max"):
        its = self.items(args[0]) if len(args) == 1 else args
        acc = its[0]
        for x in its[1:]:
            c = self.truth(self.compare(ast.Lt() if n == "min" else ast.Gt(), x, acc))
            acc = self.norm(tuple((b.AND(g, c), l) for g, l in x) + tuple((b.AND(g, b.NOT(c)), l) for g, l in acc))
        return acc
    if n == "abs":
        def f(l):
            p = self.num(l)
            if isinstance(l, Arr):
                return self.mapel(l, lambda x: self.lift(f, x))
            c = pcval(p)
            if c is not None:
                return N(pconst(abs(c)))
            return N(patom(("abs", max(p, pneg(p), key=repr))))
        return self.lift(f, args[0])
    if n == "type":
        def f(l):
            if isinstance(l, Obj):
                return Cls(l.cls)
            if isinstance(l, P.MInst):
                return Cls(l.id[1])
            return Ext({Arr: "numpy.ndarray", K: "builtins.str" if isinstance(getattr(l, "v", None), str) else "builtins.NoneType", B: "builtins.bool", Seq: "builtins.tuple", N: "builtins.number"}.get(type(l), "builtins.object"))
        return self.lift(f, args[0])
    if n == "print":
        return K(None)
    if n == "next":
        its = self.items(args[0])
        # only the first element of a fresh generator
        if its:
            return its[0]
        if len(args) > 1:
            return args[1]
        self.rz("StopIteration")
        return ()
    if n == "callable":
        return self.lift(lambda l: B(1 if isinstance(l, (Fn, Ext, Bound, Meth, Partial, Cls)) else 0, False), args[0])
    if n == "memoryview":
        return self.lift(lambda l: Attr(l, "data"), args[0])
    if n == "slice":
        a = [V_(K(None))] + args if len(args) == 1 else args
        a = a + [V_(K(None))] * (3 - len(a))
        return self.lift(lambda x, y, z: Slice(x, y, z), *a[:3])
    if n in ("id",):
        return self.lift(lambda l: N(patom(("int", ("id", repr(l))))), args[0])
    self.fail("builtin " + n)


def diff(self, a):
    its = self.flat_items(a)
    if len(a.shape) != 1:
        self.fail("np.diff of a multi-dimensional array")
    out = [self.lift(lambda p, q: N(padd(self.num(p), self.num(q), -1)), y, x) for x, y in zip(its, its[1:])]
    P = _an()
    return self.arr(V_(P.Vec(tuple(out))), self.norm(self.dt[a.buf]), (pconst(len(out)),))


def npfn(self, n, args, kwargs):
    P = _an()
    b = self.bdd
    A = lambda v, dt=None: mkarray(self, v, dt)
    if n in ("ascontiguousarray", "require"):
        if n == "require":
            self.fail("np.require")
        return contiguous(self, args[0], kw(self, args, kwargs, 1, "dtype"))
    if n in ("asarray", "array", "asanyarray"):
        dt = kw(self, args, kwargs, 1, "dtype")
        if dt is not None and dt == V_(K(None), 1):
            dt = None
        cp = n == "array" and not ("copy" in kwargs and self.truth(kwargs["copy"]) == 0)
        if n == "array" and "copy" in kwargs and self.norm(kwargs["copy"])[0][1] == K(None):
            cp = False
        order = kwargs.get("order")
        if order is not None and self.only(order) == K("C"):
            return contiguous(self, A(args[0], dt)) if not cp else mkarray(self, args[0], dt, True)
        if order is not None:
            self.fail("array order")
        if "ndmin" in kwargs:
            self.fail("ndmin")
        return mkarray(self, args[0], dt, cp)
    if n in ("zeros", "ones", "empty", "full"):
        x = N(pconst(0)) if n == "zeros" else N(pconst(1)) if n == "ones" else Tm(("uninitialised", self.nbuf))
        i = 1
        if n == "full":
            fv = kw(self, args, kwargs, 1, "fill_value")
            i = 2
        dt = kw(self, args, kwargs, i, "dtype")

        def f(l):
            s = shape_of(self, l)
            if n == "full":
                d = dt_of(self, dt) if dt is not None else infer_dt(self, [fv])
                k = pconst(1)
                for q in s:
                    k = pmul(k, q)
                return self.arr(V_(P.Vec((fv,) * int(pcval(k)))), d, s)
            d = dt_of(self, dt) if dt is not None else V_(Dt("float64"))
            y = x
            if all(isinstance(q, Dt) and q.name == "bool" for _, q in d) and isinstance(x, N):
                y = B(1 if pcval(x.p) else 0, True)
            return self.arr(fill(self, s, y), d, s)
        return self.lift(f, kw(self, args, kwargs, 0, "shape"))
    if n in ("zeros_like", "ones_like", "empty_like"):
        x = N(pconst(0)) if n[0] == "z" else N(pconst(1)) if n[0] == "o" else Tm(("uninitialised", self.nbuf))
        return arr_like(self, kw(self, args, kwargs, 0, "a"), args, kwargs, x)
    if n == "full_like":
        fv = self.only(args[1])
        return arr_like(self, args[0], args[:1] + args[2:], kwargs, fv)
    if n == "diff":
        if len(args) > 1 or kwargs:
            self.fail("np.diff options")
        return self.lift(lambda l: diff(self, l), A(args[0]))
    if n in ("all", "any"):
        if kwargs or len(args) > 1:
            self.fail("np.all options")
        return flat_all(self, args[0], n == "all")
    if n in ("prod", "sum"):
        def f(l):
            acc = V_(N(pconst(1 if n == "prod" else 0)))
            for x in (self.flat_items(l) if isinstance(l, Arr) else self.items(V_(l))):
                acc = self.binop(ast.Mult() if n == "prod" else ast.Add(), acc, x)
            return acc
        return self.lift(f, args[0])
    if n in ("min", "max", "amin", "amax"):
        its = self.lift(lambda l: self.newlist(self.flat_items(l)), A(args[0]))
        return builtin(self, n[-3:], [its], {})
    if n in ("ravel",):
        return self.lift(lambda l: flat_view(self, l, kw(self, args, kwargs, 1, "order")), A(args[0]))
    if n == "reshape":
        return self.lift(lambda l, s: reshape(self, l, shape_of(self, s)), A(args[0]), kw(self, args, kwargs, 1, "newshape", kwargs.get("shape")))
    if n == "size":
        return self.lift(lambda l: N(self.asize(l)), A(args[0]))
    if n == "ndim":
        return self.lift(lambda l: N(pconst(len(l.shape))), A(args[0]))
    if n == "shape":
        return self.lift(lambda l: Seq("tuple", tuple(V_(N(s)) for s in l.shape)), A(args[0]))
    if n == "copy":
        return mkarray(self, args[0], None, True)
    if n == "copyto":
        self.lift(lambda l: (self.write(l, args[1]), K(None))[1], args[0])
        return K(None)
    if n == "dtype":
        return dt_of(self, args[0])
    if n in ("logical_and", "logical_or", "logical_not", "bitwise_and", "bitwise_or"):
        if n == "logical_not":
            return self.lift(self.not_, args[0])
        op = ast.BitAnd() if n.endswith("and") else ast.BitOr()
        return self.binop(op, args[0], args[1])
    cm = {"equal": ast.Eq(), "not_equal": ast.NotEq(), "greater": ast.Gt(), "greater_equal": ast.GtE(), "less": ast.Lt(), "less_equal": ast.LtE()}
    if n in cm:
        return self.compare(cm[n], args[0], args[1])
    if n in ("subtract", "add", "multiply", "divide"):
        return self.binop({"subtract": ast.Sub(), "add": ast.Add(), "multiply": ast.Mult(), "divide": ast.Div()}[n], args[0], args[1])
    if n in ("isclose", "allclose"):
        opts = tuple((k, self.term(v)) for k, v in sorted(kwargs.items())) + tuple(self.term(a) for a in args[2:])

        def c1(x, y):
            return self.lift(lambda p, q: B(b.var(("close", self.num(p), self.num(q), opts)), True), x, y)

        def f(x, y):
            if isinstance(x, Arr) or isinstance(y, Arr):
                return self.elementwise(x, y, c1, "bool", "isclose")
            return c1(V_(x), V_(y))
        r = self.lift(f, args[0], args[1])
        return r if n == "isclose" else flat_all(self, r, True)
    if n in ("isfinite", "isnan", "signbit", "abs", "absolute"):
        def f(l):
            if isinstance(l, Arr):
                return self.mapel(l, lambda x: self.lift(f, x), "bool" if n[0] != "a" else None)
            if n[0] == "a":
                return builtin(self, "abs", [V_(l)], {})
            p = self.num(l)
            return B(b.var((n, p)), True)
        return self.lift(f, args[0])
    if n == "array_equal":
        def f(x, y):
            if x.shape != y.shape:
                return B(0, False)
            return flat_all(self, V_(self.elementwise(x, y, lambda p, q: self.compare(ast.Eq(), p, q), "bool", "==")), True)
        return self.lift(f, A(args[0]), A(args[1]))
    if n in ("float64", "float32", "int64", "bool_", "intp", "double", "single"):
        return args[0] if args else N(())
    if n in ("atleast_1d",):
        return self.lift(lambda l: l if l.shape else Arr(l.buf, (pconst(1),), l.contig, l.view), A(args[0]))
    if n == "squeeze":
        return meth(self, self.only(A(args[0])), "squeeze", args[1:], kwargs)
    if n in ("fromiter",):
        return mkarray(self, args[0], kw(self, args, kwargs, 1, "dtype"))
    if n in ("concatenate", "hstack"):
        its = [self.only(x) for x in self.items(args[0])]
        el = [e for a in its for e in self.flat_items(a)]
        return self.arr(V_(P.Vec(tuple(el))), self.norm(self.dt[its[0].buf]), (pconst(len(el)),))
    if n in ("shares_memory", "may_share_memory"):
        return self.lift(lambda x, y: B(1 if x.buf == y.buf else 0, False), args[0], args[1])
    if n == "broadcast_to":
        self.fail("broadcast_to")
    if n == "issubdtype":
        def f(d, c):
            nm = self.dtname(d)
            cn = c.path.split(".")[-1]
            if nm is None:
                self.fail("issubdtype")
            fl = nm[0].startswith("float") or nm[0].startswith("other")
            return B(1 if (cn in ("floating", "number", "inexact") and fl) or nm[0] == cn else 0, False)
        return self.lift(f, args[0], args[1])
    if n == "result_type":
        ds = [self.lift(lambda l: self.norm(self.dt[l.buf]) if isinstance(l, Arr) else dt_of(self, V_(l)), a) for a in args]
        return self.lift(lambda *d: d[0] if len(set(d)) == 1 else Dt("promoted"), *ds)
    self.fail("numpy function " + n)


def meth(self, l, n, args, kwargs):
    P = _an()
    b = self.bdd
    if isinstance(l, Arr):
        if n == "ravel":
            return flat_view(self, l, kw(self, args, kwargs, 0, "order"))
        if n == "flatten":
            return flat_copy(self, l, kw(self, args, kwargs, 0, "order"))
        if n == "reshape":
            if "order" in kwargs:
                self.fail("reshape order")
            if len(args) == 1:
                return self.lift(lambda s: reshape(self, l, shape_of(self, s)), args[0])
            return reshape(self, l, tuple(self.num(self.only(a)) for a in args))
        if n in ("copy", "__copy__"):
            return self.arr(self.content(l), self.norm(self.dt[l.buf]), l.shape)
        if n == "astype":
            cp = not ("copy" in kwargs and self.truth(kwargs["copy"]) == 0)
            d = dt_of(self, kw(self, args, kwargs, 0, "dtype"))

            def f(s, t):
                if s == t and not cp:
                    return l
                return self.arr(self.castc(self.content(l), V_(s), V_(t)), V_(t), l.shape, 1 if len(l.shape) <= 1 else l.contig)
            return self.lift(f, self.norm(self.dt[l.buf]), d)
        if n in ("all", "any"):
            return flat_all(self, V_(l), n == "all")
        if n == "tolist":
            cs = self.content(l)
            if all(isinstance(c, P.Vec) for _, c in cs) and len(l.shape) == 1:
                return self.newlist(self.flat_items(l))
            return self.lift(lambda c, d: Tm(("tolist", self.lterm(c), l.shape, self.lterm(d))), cs, self.norm(self.dt[l.buf]))
        if n == "item":
            if args:
                return self.flat_items(l)[self.intval(self.only(args[0]))]
            if pcval(self.asize(l)) != 1:
                self.rz("ValueError")
                return ()
            return self.flat_items(l)[0]
        if n == "fill":
            self.write(l, args[0])
            return K(None)
        if n == "view" and not args:
            return l
        if n == "squeeze":
            sh = tuple(s for s in l.shape if pcval(s) != 1)
            return Arr(l.buf, sh, l.contig, l.view)
        if n in ("prod", "sum", "min", "max") and not args and not kwargs:
            return npfn(self, n, [V_(l)], {})
        if n == "__len__":
            return gatelen(self, V_(l))
        self.fail("array method " + n)
    if isinstance(l, Attr):
        self.fail(f"method {l.name}.{n}")
    if isinstance(l, P.Ref):
        cont = self.only(self.heap[l.id]) if len(self.norm(self.heap[l.id])) == 1 else None
        if n == "append":
            return self.extend(l, self.only(self.newlist([args[0]])))
        if n == "extend":
            return self.lift(lambda r: self.extend(l, r), args[0])
        if n == "copy":
            return V_(P.Ref(self.buf(self.norm(self.heap[l.id]), None)))
        if isinstance(cont, Dic):
            if n == "get":
                dflt = args[1] if len(args) > 1 else V_(K(None))

                def f(k):
                    lst = []
                    self.tries.append(lst)
                    r = self.lgetitem(l, k)
                    r = V_(r) if isinstance(r, Leaf) else r
                    self.tries.pop()
                    g = b.OR(*[x for x, _ in lst])
                    if not b.empty(g):
                        self.live = b.OR(self.live, g)
                        r = tuple(r) + tuple((b.AND(gg, g), l2) for gg, l2 in dflt)
                    return r
                return self.lift(f, args[0])
            if n == "items":
                return self.newlist([V_(Seq("tuple", (V_(k), v))) for k, v in cont.items])
            if n == "values":
                return self.newlist([v for _, v in cont.items])
            if n == "keys":
                return self.newlist([V_(k) for k, _ in cont.items])
            if n == "update":
                def f(r):
                    o = self.only(self.heap[r.id])
                    d = dict(cont.items)
                    d.update(dict(o.items))
                    self.heap[l.id] = self.merge(V_(Dic(tuple(d.items()))), self.heap[l.id])
                    return K(None)
                return self.lift(f, args[0])
        if isinstance(cont, Seq):
            if n == "index" or n == "count":
                self.fail("list." + n)
            if n == "pop":
                it = list(cont.items)
                if not it:
                    self.rz("IndexError")
                    return ()
                i = self.intval(self.only(args[0])) if args else -1
                x = it.pop(i)
                self.heap[l.id] = self.merge(V_(Seq(cont.kind, tuple(it))), self.heap[l.id])
                return x
            if n == "insert":
                it = list(cont.items)
                it.insert(self.intval(self.only(args[0])), args[1])
                self.heap[l.id] = self.merge(V_(Seq(cont.kind, tuple(it))), self.heap[l.id])
                return K(None)
            if n == "reverse":
                self.heap[l.id] = self.merge(V_(Seq(cont.kind, cont.items[::-1])), self.heap[l.id])
                return K(None)
    if isinstance(l, K) and isinstance(l.v, str):
        if n == "format":
            vs = [self.lift(self.tostr, a) for a in args]
            ks = {k: self.lift(self.tostr, v) for k, v in kwargs.items()}

            def f(*ls):
                if all(isinstance(x, K) for x in ls):
                    return K(l.v.format(*[x.v for x in ls[: len(vs)]], **{k: x.v for k, x in zip(ks, ls[len(vs):])}))
                return Tm(("format", l.v) + tuple(self.lterm(x) for x in ls))
            return self.lift(f, *vs, *ks.values())
        if n in ("lower", "upper", "strip", "title", "capitalize"):
            return K(getattr(l.v, n)())
        if n in ("startswith", "endswith"):
            return B(1 if getattr(l.v, n)(self.only(args[0]).v) else 0, False)
        if n == "join":
            vs = self.items(args[0])
            return self.lift(lambda *ls: K(l.v.join(x.v for x in ls)) if all(isinstance(x, K) for x in ls) else Tm(("join",) + tuple(self.lterm(x) for x in ls)), *vs)
    if isinstance(l, Tm) and n in ("lower", "upper", "strip"):
        return Tm((n, l.t))
    self.fail(f"method {n} of {l}")
