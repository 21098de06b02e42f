"""Static analyser of the Python sources of /repo/src/interpn (nothing is imported or executed).

Gated abstract evaluation of the syntax tree: every value is a set of (guard, leaf) cases whose guards are
BDDs over canonical atoms (dtype tests, contiguity, order of grid coordinates, flags ...); statements are
executed under the guard of their control context and joins merge by guard, so one pass covers every
combination of conditions.  Arrays are views of buffers whose contents are terms over the inputs; the
compiled extension is uninterpreted (calls are recorded and write a term into their output buffer).
Anything outside the model raises Unsupported with the source location.
"""
import ast, os
from fractions import Fraction
from pyval import *


class Unsupported(Exception):
    pass


Vec = leaf("Vec", "items")      # buffer content: tuple of gated values
Ref = leaf("Ref", "id")         # mutable list or dict in the heap
Ann = leaf("Ann", "text")       # type expressions
MInst = leaf("MInst", "id")     # instance of a plain (non-model) class
TOP = None


def V(l, g=1):
    return ((g, l),)


NONE = V(K(None))


class Frame:
    def __init__(self, mod, parent=None, loc=True):
        self.env, self.mod, self.parent, self.loc = {}, mod, parent, loc
        self.ret = []
        self.loops = []
        self.globals_ = set()


class Klass:
    def __init__(self, name, node, mod):
        self.name, self.node, self.mod = name, node, mod
        self.bases, self.attrs, self.fields, self.decos, self.kind = [], {}, {}, {}, {}


NPDT = {"numpy.float64": "float64", "numpy.float32": "float32", "numpy.bool_": "bool", "numpy.int64": "int64", "numpy.intp": "int64", "numpy.double": "float64", "numpy.single": "float32", "builtins.float": "float64", "builtins.int": "int64", "builtins.bool": "bool", "numpy.int_": "int64", "numpy.uint64": "uint64", "numpy.uintp": "uint64", "numpy.float16": "float16", "numpy.int32": "int32", "numpy.bool": "bool"}
EXCS = {"ValueError", "TypeError", "AssertionError", "KeyError", "IndexError", "RuntimeError", "NotImplementedError", "Exception", "AttributeError", "StopIteration", "ArithmeticError", "LookupError", "BaseException"}
EXC_UP = {"KeyError": "LookupError", "IndexError": "LookupError"}
BUILTINS = {"len", "range", "zip", "enumerate", "list", "tuple", "dict", "set", "isinstance", "all", "any", "bool", "int", "float", "str", "sum", "map", "filter", "reversed", "getattr", "min", "max", "abs", "type", "print", "hasattr", "next", "iter", "frozenset", "callable", "sorted", "repr", "id", "object", "memoryview", "complex", "slice", "issubclass", "format", "bytes", "classmethod", "staticmethod", "property", "round", "pow", "setattr", "NotImplemented"}


class An:
    def __init__(self, root, pkg="interpn"):
        self.root, self.pkg = root, pkg
        self.bdd = Bdd()
        self.live = 1
        self.heap, self.dt, self.nbuf = {}, {}, 0
        self.raised = []       # (guard, exception name)
        self.tries = []
        self.events = []
        self.mods, self.fns, self.classes = {}, [], []
        self.node = None
        self.file = "?"
        self.depth = 0
        self.raw_sigs = {}
        self.analysed = set()
        self.steps = 0

    # ------------------------------------------------------------ helpers
    def fail(self, msg):
        raise Unsupported(f"{self.file}:{getattr(self.node, 'lineno', 0)}: {msg}")

    def norm(self, v):
        d = {}
        for g, l in v:
            g = self.bdd.AND(g, self.live)
            if not self.bdd.empty(g):
                d[l] = self.bdd.OR(d.get(l, 0), g)
        return tuple((g, l) for l, g in d.items())

    def lift(self, f, *vs):
        b = self.bdd
        saved, out, surv = self.live, [], 0
        combos = [(saved, ())]
        for v in vs:
            combos = [(b.AND(g, gg), ls + (l,)) for g, ls in combos for gg, l in v if not b.empty(b.AND(g, gg))]
        for g, ls in combos:
            self.live = g
            r = f(*ls)
            if isinstance(r, Leaf):
                r = V(r)
            out += [(b.AND(gg, self.live), l) for gg, l in r]
            surv = b.OR(surv, self.live)
        self.live = surv
        return self.norm(out)

    def under(self, g, f):
        saved = self.live
        self.live = self.bdd.AND(saved, g)
        r = f() if not self.bdd.empty(self.live) else ()
        return r, saved

    def rz(self, name, g=1):
        """raise under the current guard (and g)"""
        g = self.bdd.AND(self.live, g)
        if self.bdd.empty(g):
            return
        (self.tries[-1] if self.tries else self.raised).append((g, name))
        self.live = self.bdd.AND(self.live, self.bdd.NOT(g))

    def merge(self, new, old):
        """new under live, old otherwise"""
        nl = self.bdd.NOT(self.live)
        out = [(self.bdd.AND(g, self.live), l) for g, l in new] + [(self.bdd.AND(g, nl), l) for g, l in old]
        d = {}
        for g, l in out:
            if not self.bdd.empty(g):
                d[l] = self.bdd.OR(d.get(l, 0), g)
        return tuple((g, l) for l, g in d.items())

    def only(self, v, what="value"):
        v = self.norm(v)
        if len(v) != 1:
            self.fail(f"{what} is not unique: {v}")
        return v[0][1]

    def onlyk(self, v):
        return None if v is None else self.only(v)

    # ------------------------------------------------------------ buffers
    def buf(self, content, dt):
        self.nbuf += 1
        self.heap[self.nbuf] = content
        self.dt[self.nbuf] = dt
        return self.nbuf

    def content(self, a):
        """contents of an array in C order as gated leaves (Vec or Tm)"""
        c = self.norm(self.heap[a.buf])
        if a.view is None:
            return c
        lo, step, n = a.view
        return self.lift(lambda l: Vec(tuple(l.items[lo + step * i] for i in range(n))) if isinstance(l, Vec) else Tm(("slice", l.t, a.view)), c)

    def arr(self, content, dt, shape, contig=1):
        return Arr(self.buf(content, dt), tuple(shape), contig, None)

    def term(self, v, top=True):
        """canonical term of a gated value under the current guard, or a 'cases' term"""
        v = self.norm(v)
        ts = {}
        for g, l in v:
            t = self.lterm(l)
            ts[t] = self.bdd.OR(ts.get(t, 0), g)
        if len(ts) == 1:
            return next(iter(ts))
        return ("cases",) + tuple(sorted(((t, g) for t, g in ts.items()), key=repr))

    def lterm(self, l):
        if isinstance(l, K):
            return ("const", l.v)
        if isinstance(l, B):
            return ("bool", l.g) if l.g > 1 else ("const", bool(l.g))
        if isinstance(l, N):
            c = pcval(l.p)
            return ("num", l.p) if c is None else ("const", c)
        if isinstance(l, Tm):
            return l.t
        if isinstance(l, Seq):
            return ("seq",) + tuple(self.term(x) for x in l.items)
        if isinstance(l, Ref):
            return self.term(self.heap[l.id])
        if isinstance(l, Vec):
            return ("vec",) + tuple(self.term(x) for x in l.items)
        if isinstance(l, Arr):
            return ("arr", self.term(self.content(l)), self.dterm(l), l.shape)
        if isinstance(l, Obj):
            return ("obj", l.cls) + tuple((n, self.term(x)) for n, x in l.fields)
        return ("leaf", repr(l.key()))

    def dterm(self, a):
        return self.term(self.dt[a.buf])

    # ------------------------------------------------------------ modules
    def module(self, name):
        """name relative to the package: '' for the package itself"""
        if name in self.mods:
            return self.mods[name]
        p = os.path.join(self.root, (name.replace(".", "/") + ".py") if name else "__init__.py")
        if not os.path.exists(p):
            p = os.path.join(self.root, name.replace(".", "/"), "__init__.py")
            if not os.path.exists(p):
                return None
        fr = Frame(name, None, False)
        self.mods[name] = fr
        saved = self.file, self.node, self.live, self.tries
        self.file, self.live, self.tries = os.path.relpath(p, self.root), 1, []
        self.analysed.add(self.file)
        fr.env["__name__"] = V(K("interpn" + ("." + name if name else "")))
        self.block(ast.parse(open(p).read()).body, fr)
        self.file, self.node, self.live, self.tries = saved
        return fr

    def import_(self, name, level, fr):
        """dotted module -> leaf"""
        if level:
            base = fr.mod.split(".") if fr.mod else []
            if fr.mod and not os.path.isdir(os.path.join(self.root, fr.mod.replace(".", "/"))):
                base = base[:-1]
            base = base[: len(base) - (level - 1)] if level > 1 else base
            full = ".".join(base + ([name] if name else []))
        elif name == self.pkg or (name or "").startswith(self.pkg + "."):
            full = name[len(self.pkg) + 1:]
        else:
            return Ext(name)
        if full == "interpn":
            return Ext("rawext")
        m = self.module(full)
        if m is None:
            return None
        return Mod(full)

    def mod_attr(self, m, name):
        fr = self.module(m)
        if name in fr.env:
            return fr.env[name]
        sub = (m + "." if m else "") + name
        if sub == "interpn":
            return V(Ext("rawext"))
        if self.module(sub) is not None:
            return V(Mod(sub))
        return None

    # ------------------------------------------------------------ statements
    def block(self, stmts, fr):
        for s in stmts:
            if self.bdd.empty(self.live):
                return
            self.stmt(s, fr)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            env = fr.env
            if t.id in fr.globals_:
                self.fail("assignment to a global variable")
            env[t.id] = self.merge(v, env.get(t.id, ()))
        elif isinstance(t, (ast.Tuple, ast.List)):
            b = self.bdd
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            parts = [[] for _ in t.elts]
            for g, l in self.norm(v):
                saved = self.live
                self.live = b.AND(saved, g)
                items = self.items(V(l))
                if star:
                    i = star[0]
                    k = len(items) - (n - 1)
                    if k < 0:
                        self.rz("ValueError")
                        self.live = b.AND(saved, b.NOT(g))
                        continue
                    items = items[:i] + [self.newlist(items[i:i + k])] + items[i + k:]
                if len(items) != n:
                    self.rz("ValueError")
                    self.live = b.AND(saved, b.NOT(g))
                    continue
                for p, x in zip(parts, items):
                    p += [(b.AND(gg, g), ll) for gg, ll in x]
                self.live = saved
            for e, p in zip(t.elts, parts):
                self.assign(e.value if isinstance(e, ast.Starred) else e, tuple(p), fr)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, fr), self.sub(t.slice, fr), v)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            for g, l in self.norm(o):
                saved = self.live
                self.live = self.bdd.AND(saved, g)
                if isinstance(l, MInst):
                    d = dict(self.heap[l.id])
                    d[t.attr] = self.merge(v, d.get(t.attr, ()))
                    self.heap[l.id] = d
                elif isinstance(l, Obj):
                    self.rz("ValueError")  # frozen model
                else:
                    self.fail(f"attribute assignment to {l}")
                self.live = self.bdd.OR(self.live, self.bdd.AND(saved, self.bdd.NOT(g)))
        else:
            self.fail("assignment target " + type(t).__name__)

    def stmt(self, s, fr):
        self.node = s
        self.steps += 1
        if self.steps > 200000:
            self.fail("too many steps")
        b = self.bdd
        if isinstance(s, ast.Expr):
            self.ev(s.value, fr)
        elif isinstance(s, ast.Assign):
            v = self.ev(s.value, fr)
            for t in s.targets:
                self.assign(t, v, fr)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, fr), fr)
        elif isinstance(s, ast.AugAssign):
            t = ast.parse(ast.unparse(s.target), mode="eval").body
            old = self.ev(t, fr)
            new = self.ev(s.value, fr)
            if isinstance(s.op, ast.Add) and any(isinstance(l, Ref) for _, l in self.norm(old)):
                self.lift(lambda l, r: self.extend(l, r), old, new)
                return
            if any(isinstance(l, Arr) for _, l in self.norm(old)):
                self.fail("in-place array arithmetic")
            self.assign(s.target, self.binop(s.op, old, new), fr)
        elif isinstance(s, ast.Return):
            v = self.ev(s.value, fr) if s.value else NONE
            fr.ret.append((self.live, self.norm(v)))
            self.live = 0
        elif isinstance(s, ast.Raise):
            name = "Exception"
            if s.exc is None:
                name = "reraise"
            else:
                e = self.ev(s.exc, fr)
                for g, l in self.norm(e):
                    nm = l.name if isinstance(l, Exc) else (l.path.split(".")[-1] if isinstance(l, Ext) else None)
                    if nm is None:
                        self.fail("raise of " + repr(l))
                    self.rz(nm, g)
                return
            self.rz(name)
        elif isinstance(s, ast.Assert):
            c = self.truth(self.ev(s.test, fr))
            self.rz("AssertionError", b.NOT(c))
        elif isinstance(s, ast.If):
            c = self.truth(self.ev(s.test, fr))
            self.branch(c, lambda: self.block(s.body, fr), lambda: self.block(s.orelse, fr))
        elif isinstance(s, ast.For):
            it = self.ev(s.iter, fr)
            total = 0
            for g, l in self.norm(it):
                saved = self.live
                self.live = b.AND(saved, g)
                brk = [0, 0]
                fr.loops.append(brk)
                for x in self.items(V(l)):
                    self.assign(s.target, x, fr)
                    self.block(s.body, fr)
                    self.live = b.OR(self.live, brk[1])
                    brk[1] = 0
                    if b.empty(self.live):
                        break
                fr.loops.pop()
                if s.orelse:
                    self.block(s.orelse, fr)
                total = b.OR(total, self.live, brk[0])
                self.live = b.AND(saved, b.NOT(g))
            self.live = total
        elif isinstance(s, ast.While):
            out = 0
            brk = [0, 0]
            fr.loops.append(brk)
            for k in range(80):
                c = self.truth(self.ev(s.test, fr))
                out = b.OR(out, b.AND(self.live, b.NOT(c)))
                self.live = b.AND(self.live, c)
                if b.empty(self.live):
                    break
                self.block(s.body, fr)
                self.live = b.OR(self.live, brk[1])
                brk[1] = 0
            else:
                self.fail("loop without a bound")
            fr.loops.pop()
            self.live = out
            if s.orelse:
                self.block(s.orelse, fr)
            self.live = b.OR(self.live, brk[0])
        elif isinstance(s, ast.Break):
            fr.loops[-1][0] = b.OR(fr.loops[-1][0], self.live)
            self.live = 0
        elif isinstance(s, ast.Continue):
            fr.loops[-1][1] = b.OR(fr.loops[-1][1], self.live)
            self.live = 0
        elif isinstance(s, ast.Match):
            subj = self.ev(s.subject, fr)
            done = 0
            for c in s.cases:
                if b.empty(self.live):
                    break
                m = self.pattern(c.pattern, subj, fr)
                saved = self.live
                self.live = b.AND(saved, m)
                if b.empty(self.live):
                    self.live = saved
                    continue
                if c.guard is not None:
                    gd = self.truth(self.ev(c.guard, fr))
                    m = b.AND(m, gd)
                    self.live = b.AND(self.live, gd)
                self.block(c.body, fr)
                done = b.OR(done, self.live)
                self.live = b.AND(saved, b.NOT(m))
            self.live = b.OR(self.live, done)
        elif isinstance(s, (ast.Pass, ast.Global, ast.Nonlocal)):
            if not isinstance(s, ast.Pass):
                fr.globals_ |= set(s.names)
        elif isinstance(s, ast.FunctionDef):
            self.assign(ast.Name(s.name), self.mkfn(s, fr), fr)
        elif isinstance(s, ast.ClassDef):
            self.assign(ast.Name(s.name), self.mkclass(s, fr), fr)
        elif isinstance(s, ast.Import):
            for a in s.names:
                m = self.import_(a.name if a.asname else a.name.split(".")[0], 0, fr)
                if m is None:
                    self.rz("ImportError")
                    return
                self.assign(ast.Name(a.asname or a.name.split(".")[0]), V(m), fr)
        elif isinstance(s, ast.ImportFrom):
            if s.module == "__future__":
                return
            for a in s.names:
                m = self.import_(s.module, s.level, fr)
                if m is None:
                    self.fail(f"no module {s.module}")
                if a.name == "*":
                    self.fail("star import")
                if isinstance(m, Mod):
                    v = self.mod_attr(m.name, a.name)
                    if v is None:
                        self.fail(f"no name {a.name} in {m.name or 'interpn'}")
                else:
                    v = V(self.extattr(m, a.name))
                self.assign(ast.Name(a.asname or a.name), v, fr)
        elif isinstance(s, ast.Try) :
            lst = []
            self.tries.append(lst)
            self.block(s.body, fr)
            self.tries.pop()
            if s.orelse:
                self.block(s.orelse, fr)
            after = self.live
            for h in s.handlers:
                names = None
                if h.type is not None:
                    names = [x.path.split(".")[-1] for _, l in self.norm2(self.ev_any(h.type, fr)) for x in ([l] if isinstance(l, Ext) else [y[0][1] for y in l.items])]
                hit, rest = 0, []
                for g, n in lst:
                    up = {n, EXC_UP.get(n, n), "Exception", "BaseException"}
                    if names is None or up & set(names):
                        hit = b.OR(hit, g)
                    else:
                        rest.append((g, n))
                hits = [(g, n) for g, n in lst if (g, n) not in rest]
                lst = rest
                self.live = hit
                if not b.empty(hit):
                    if h.name:
                        self.assign(ast.Name(h.name), V(Exc("caught")), fr)
                    mark = len(self.tries[-1] if self.tries else self.raised)
                    self.block(h.body, fr)
                    tgt = self.tries[-1] if self.tries else self.raised
                    for i in range(mark, len(tgt)):
                        if tgt[i][1] == "reraise":
                            g0 = tgt[i][0]
                            tgt[i:i + 1] = [(b.AND(g0, g), n) for g, n in hits]
                after = b.OR(after, self.live)
            for g, n in lst:
                self.live = g
                self.rz(n)
            self.live = after
            if s.finalbody:
                if lst or fr.ret:
                    self.fail("finally with pending exits")
                self.block(s.finalbody, fr)
        elif isinstance(s, ast.With):
            for i in s.items:
                e = i.context_expr
                if not (isinstance(e, ast.Call) and ast.unparse(e.func) in ("np.errstate", "numpy.errstate")):
                    self.fail("with statement")
            self.block(s.body, fr)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if not isinstance(t, ast.Name):
                    self.fail("del")
        else:
            self.fail("statement " + type(s).__name__)

    def norm2(self, v):
        return [(g, l) for g, l in v if not self.bdd.empty(g)]

    def ev_any(self, n, fr):
        saved = self.live
        self.live = 1
        r = self.ev(n, fr)
        self.live = saved
        return r

    def branch(self, c, yes, no):
        b = self.bdd
        saved = self.live
        self.live = b.AND(saved, c)
        ry = yes() if not b.empty(self.live) else ()
        if b.empty(self.live):
            self.live = 0
        l1 = self.live
        self.live = b.AND(saved, b.NOT(c))
        rn = no() if not b.empty(self.live) else ()
        if b.empty(self.live):
            self.live = 0
        l2 = self.live
        self.live = b.OR(l1, l2)
        return ry, rn, l1, l2

    def pattern(self, p, subj, fr):
        """guard under which the pattern matches (binds names)"""
        b = self.bdd
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare(ast.Eq(), subj, self.ev(p.value, fr)))
        if isinstance(p, ast.MatchSingleton):
            return self.truth(self.compare(ast.Is(), subj, V(K(p.value) if p.value is None else B(1 if p.value else 0, False))))
        if isinstance(p, ast.MatchAs):
            g = 1 if p.pattern is None else self.pattern(p.pattern, subj, fr)
            if p.name:
                saved = self.live
                self.live = b.AND(saved, g)
                self.assign(ast.Name(p.name), subj, fr)
                self.live = saved
            return g
        if isinstance(p, ast.MatchOr):
            return b.OR(*[self.pattern(x, subj, fr) for x in p.patterns])
        if isinstance(p, ast.MatchSequence):
            out = 0
            for g, l in self.norm(subj):
                if isinstance(l, Ref) and isinstance(self.only(self.heap[l.id]), Seq) or isinstance(l, Seq):
                    saved = self.live
                    self.live = b.AND(saved, g)
                    it = self.items(V(l))
                    if len(it) == len(p.patterns):
                        gg = g
                        for q, x in zip(p.patterns, it):
                            self.live = b.AND(saved, gg)
                            if b.empty(self.live):
                                gg = 0
                                break
                            gg = b.AND(gg, self.pattern(q, x, fr))
                        out = b.OR(out, gg)
                    self.live = saved
            return out
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            return self.truth(self.isinst(subj, self.ev(p.cls, fr)))
        self.fail("pattern " + type(p).__name__)

    # ------------------------------------------------------------ functions and classes
    def mkfn(self, s, fr):
        for d in getattr(s, "decorator_list", []):
            v = self.ev(d, fr)
            nm = self.only(v)
            if isinstance(nm, Ext) and nm.path in ("functools.cache", "functools.lru_cache") or isinstance(nm, Partial) and isinstance(nm.fn, Ext) and nm.fn.path == "functools.lru_cache":
                if "lru_cache" in ast.unparse(d) or "cache" in ast.unparse(d):
                    self.fail("cached function")
            self.fail("decorator " + ast.unparse(d))
        a = s.args
        dft = [self.ev(x, fr) for x in a.defaults]
        kdf = [self.ev(x, fr) if x is not None else None for x in a.kw_defaults]
        self.fns.append((s, fr, dft, kdf, self.file))
        return V(Fn(len(self.fns) - 1))

    def mkclass(self, s, fr):
        k = Klass(s.name, s, fr.mod)
        k.bases = [self.only(self.ev(x, fr)) for x in s.bases]
        k.decos_cls = [self.only(self.ev(x, fr)) for x in s.decorator_list]
        cf = Frame(fr.mod, fr)
        for st in s.body:
            if isinstance(st, ast.FunctionDef):
                decos = [self.only(self.ev(d, fr)) for d in st.decorator_list]
                bare = ast.FunctionDef(**{f: getattr(st, f, None) for f in st._fields})
                bare.decorator_list = []
                ast.copy_location(bare, st)
                bare.type_params = []
                cf.env[st.name] = self.mkfn(bare, cf if False else fr)
                k.decos[st.name] = decos
            elif isinstance(st, ast.AnnAssign):
                k.fields[st.target.id] = (ast.unparse(st.annotation), st.annotation, fr)
                if st.value is not None:
                    cf.env[st.target.id] = self.ev(st.value, fr)
            elif isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
                pass
            elif isinstance(st, ast.Pass):
                pass
            else:
                self.stmt(st, cf)
        k.attrs = cf.env
        k.keywords = {x.arg: self.ev(x.value, fr) for x in s.keywords}
        self.classes.append(k)
        return V(Cls(len(self.classes) - 1))

    def mro(self, i):
        """C3 is not needed for single inheritance and simple mixins: depth first, left to right, last occurrence"""
        out = []
        k = self.classes[i]
        for bse in k.bases:
            if isinstance(bse, Cls):
                out = out + [x for x in self.mro(bse.ident)]
        seen = []
        for x in [i] + out:
            if x in seen:
                seen.remove(x) if x != i else None
            seen.append(x)
        return seen

    def is_model(self, i):
        return any(isinstance(bb, Ext) and bb.path == "pydantic.BaseModel" for j in self.mro(i) for bb in self.classes[j].bases)

    def fields(self, i):
        f = {}
        for j in reversed(self.mro(i)):
            f.update(self.classes[j].fields)
        return {n: x for n, x in f.items() if not x[0].startswith("ClassVar") and n != "model_config"}

    def lookup(self, i, name):
        for j in self.mro(i):
            if name in self.classes[j].attrs:
                return j, self.classes[j].attrs[name]
        return None, None

    def hooks(self, i, path):
        """[(defining class, function name, deco leaf)] of pydantic hooks, base classes first"""
        out = {}
        for j in reversed(self.mro(i)):
            for n, ds in self.classes[j].decos.items():
                for d in ds:
                    if isinstance(d, Partial) and isinstance(d.fn, Ext) and d.fn.path == path or isinstance(d, Ext) and d.path == path:
                        out[n] = (j, n, d)
        # overridden without decorator: pydantic drops the hook
        return [x for x in out.values() if self.lookup(i, x[1])[0] == x[0]]

    def call_fn(self, ident, args, kwargs):
        s, pf, dft, kdf, file = self.fns[ident]
        self.depth += 1
        if self.depth > 40:
            self.fail("recursion too deep")
        fr = Frame(pf.mod, pf)
        a = s.args
        names = [x.arg for x in a.posonlyargs + a.args]
        kwargs = dict(kwargs)
        if len(args) > len(names):
            if not a.vararg:
                self.rz("TypeError")
                self.depth -= 1
                return ()
            fr.env[a.vararg.arg] = V(Seq("tuple", tuple(args[len(names):])))
        elif a.vararg:
            fr.env[a.vararg.arg] = V(Seq("tuple", ()))
        for n, x in zip(names, args):
            fr.env[n] = x
        bad = False
        for i, n in enumerate(names):
            if n in fr.env:
                bad |= n in kwargs
                continue
            if n in kwargs:
                fr.env[n] = kwargs.pop(n)
            elif i >= len(names) - len(dft):
                fr.env[n] = dft[i - (len(names) - len(dft))]
            else:
                bad = True
        for x, d in zip(a.kwonlyargs, kdf):
            if x.arg in kwargs:
                fr.env[x.arg] = kwargs.pop(x.arg)
            elif d is not None:
                fr.env[x.arg] = d
            else:
                bad = True
        if a.kwarg:
            fr.env[a.kwarg.arg] = self.newdict([(K(n), x) for n, x in kwargs.items()])
        elif kwargs:
            bad = True
        if bad:
            self.rz("TypeError")
            self.depth -= 1
            return ()
        sn, sf = self.node, self.file
        self.file = file
        if isinstance(s, ast.Lambda):
            r = self.ev(s.body, fr)
        else:
            self.block(s.body, fr)
            b = self.bdd
            out = [(b.AND(g, gg), l) for g, v in fr.ret for gg, l in v]
            tot = b.OR(self.live, *[g for g, _ in fr.ret])
            out += [(self.live, K(None))]
            self.live = tot
            r = self.norm(out)
        self.node, self.file = sn, sf
        self.depth -= 1
        return r

    def instantiate(self, i, args, kwargs):
        k = self.classes[i]
        if not self.is_model(i):
            j, init = self.lookup(i, "__init__")
            self.nbuf += 1
            self.heap[self.nbuf] = {}
            o = MInst((self.nbuf, i))
            self.heap[o.id] = {}
            dc = any(isinstance(d, Ext) and d.path.startswith("dataclasses") or isinstance(d, Partial) and d.fn == Ext("dataclasses.dataclass") for d in k.decos_cls)
            if dc:
                fs = self.fields(i)
                d = {}
                for n, x in zip(fs, args):
                    d[n] = x
                d.update(kwargs)
                for n in fs:
                    if n not in d:
                        jj, dv = self.lookup(i, n)
                        if dv is None:
                            self.rz("TypeError")
                            return ()
                        d[n] = dv
                self.heap[o.id] = d
            elif any(bb == Ext("typing.NamedTuple") for j2 in self.mro(i) for bb in self.classes[j2].bases):
                fs = list(self.fields(i))
                vals = list(args) + [kwargs[n] for n in fs[len(args):] if n in kwargs]
                if len(vals) != len(fs):
                    self.fail("NamedTuple arguments")
                self.heap[o.id] = dict(zip(fs, vals))
            elif init is not None:
                self.call_fn(self.only(init).ident, [V(o)] + list(args), kwargs)
            elif args or kwargs:
                self.rz("TypeError")
                return ()
            return V(o)
        if args:
            self.rz("TypeError")
            return ()
        fs = self.fields(i)
        vals = {}
        for n, (ann, _, _) in fs.items():
            if n in kwargs:
                v = kwargs[n]
                for j, fnname, d in self.hooks(i, "pydantic.field_validator"):
                    names = [x[0][1].v for x in d.args] if isinstance(d, Partial) else []
                    mode = dict(d.kwargs).get("mode", V(K("after")))
                    if n in names or "*" in names:
                        fn = self.only(self.classes[j].attrs[fnname]).ident
                        na = len(self.fns[fn][0].args.args)
                        v = self.call_fn(fn, [v] if na == 1 else [V(Cls(i)), v], {})
                vals[n] = self.coerce(ann, v)
            else:
                j, dv = self.lookup(i, n)
                if dv is None:
                    self.rz("ValidationError")
                    return ()
                vals[n] = dv
        for n in kwargs:
            if n not in fs:
                cfg = self.config(i)
                if cfg.get("extra") == "forbid":
                    self.rz("ValidationError")
                    return ()
        o = Obj(i, tuple((n, vals[n]) for n in fs))
        for j, fnname, d in self.hooks(i, "pydantic.model_validator"):
            mode = self.only(dict(d.kwargs).get("mode", V(K("?")))).v if isinstance(d, Partial) else "?"
            if mode != "after":
                self.fail("model_validator mode " + str(mode))
            fn = self.only(self.classes[j].attrs[fnname]).ident
            self.call_fn(fn, [V(o)], {})
        return V(o)

    def coerce(self, ann, v):
        a = ann.replace(" ", "")
        if a in ("list[int]", "List[int]"):
            return self.newlist(self.items(v))
        return v

    def config(self, i):
        out = {}
        for j in reversed(self.mro(i)):
            k = self.classes[j]
            mc = k.attrs.get("model_config")
            if mc is not None:
                l = self.only(mc)
                if isinstance(l, Partial):
                    for n, x in l.kwargs:
                        y = self.only(x)
                        out[n] = bool(y.g) if isinstance(y, B) else getattr(y, "v", None)
                elif isinstance(l, Ref):
                    dd = self.only(self.heap[l.id])
                    for n, x in dd.items:
                        y = self.only(x)
                        out[n.v] = bool(y.g) if isinstance(y, B) else getattr(y, "v", None)
            for n, x in getattr(k, "keywords", {}).items():
                y = self.only(x)
                out[n] = bool(y.g) if isinstance(y, B) else getattr(y, "v", None)
        return out

    # ------------------------------------------------------------ lists and dicts
    def newlist(self, items):
        return V(Ref(self.buf(V(Seq("list", tuple(items))), None)))

    def newdict(self, items):
        return V(Ref(self.buf(V(Dic(tuple(items))), None)))

    def extend(self, l, r):
        cur = self.heap[l.id]
        new = self.lift(lambda s: Seq(s.kind, s.items + tuple(self.items(V(r)))), cur)
        self.heap[l.id] = self.merge(new, cur)
        return K(None)

    def items(self, v):
        """elements of an iterable (unique structure under the current guard; otherwise gated per position)"""
        cases = self.itemcases(v)
        if not cases:
            return []
        if len(cases) != 1:
            self.fail("iteration over a value of several lengths")
        return cases[0][1]

    def itemcases(self, v):
        """(guard, elements) of an iterable, one entry per length"""
        v = self.norm(v)
        seqs = []
        for g, l in v:
            if isinstance(l, Ref):
                for gg, s in self.norm(self.heap[l.id]):
                    gg = self.bdd.AND(g, gg)
                    if not self.bdd.empty(gg):
                        seqs.append((gg, [V(k) for k, _ in s.items] if isinstance(s, Dic) else list(s.items)))
            elif isinstance(l, Seq):
                seqs.append((g, list(l.items)))
            elif isinstance(l, Dic):
                seqs.append((g, [V(k) for k, _ in l.items]))
            elif isinstance(l, Arr):
                n = pcval(l.shape[0]) if l.shape else None
                if n is None:
                    self.fail("iteration over an array of unknown length")
                n = int(n)
                if len(l.shape) == 1:
                    for gg, c in self.content(l):
                        gg = self.bdd.AND(g, gg)
                        if isinstance(c, Vec):
                            seqs.append((gg, list(c.items)))
                        else:
                            seqs.append((gg, [self.elem(c, i, l) for i in range(n)]))
                else:
                    seqs.append((g, [V(self.row(l, i)) for i in range(n)]))
            elif isinstance(l, K) and isinstance(l.v, str):
                seqs.append((g, [V(K(c)) for c in l.v]))
            elif isinstance(l, MInst) and any(bb == Ext("typing.NamedTuple") for j in self.mro(l.id[1]) for bb in self.classes[j].bases):
                seqs.append((g, list(self.heap[l.id].values())))
            elif isinstance(l, (N, B, Fn, Ext)) or isinstance(l, K):
                saved = self.live
                self.live = self.bdd.AND(saved, g)
                self.rz("TypeError")
                self.live = self.bdd.AND(saved, self.bdd.NOT(g))
            else:
                self.fail(f"iteration over {l}")
        out = []
        for n in sorted({len(s) for _, s in seqs}):
            same = [(g, s) for g, s in seqs if len(s) == n]
            if len(same) == 1:
                out.append(same[0])
            else:
                out.append((self.bdd.OR(*[g for g, _ in same]), [tuple((self.bdd.AND(g, gg), l) for g, s in same for gg, l in s[i]) for i in range(n)]))
        return out

    def elem(self, c, i, a):
        dt = self.dt[a.buf]
        t = ("el", c.t, i)
        out = []
        for g, d in self.norm(dt):
            if isinstance(d, Dt) and d.name == "bool":
                out.append((g, B(self.bdd.var(t), True)))
            else:
                out.append((g, N(patom(t))))
        return tuple(out)

    def row(self, a, i):
        return self.arr(self.lift(lambda c: Tm(("row", self.lterm(c), i)), self.content(a)), self.dt[a.buf], a.shape[1:], a.contig)

    # ------------------------------------------------------------ truth, comparison, arithmetic
    def truth(self, v):
        b = self.bdd
        out = 0
        for g, l in self.norm(v):
            saved = self.live
            self.live = b.AND(saved, g)
            t = self.ltruth(l)
            out = b.OR(out, b.AND(g, t))
            self.live = b.OR(b.AND(saved, b.NOT(g)), self.live)
        return out

    def ltruth(self, l):
        b = self.bdd
        if isinstance(l, K):
            return 1 if l.v else 0
        if isinstance(l, B):
            return l.g
        if isinstance(l, N):
            c = pcval(l.p)
            return b.NOT(self.eq0(l.p)) if c is None else (1 if c else 0)
        if isinstance(l, Seq):
            return 1 if l.items else 0
        if isinstance(l, Dic):
            return 1 if l.items else 0
        if isinstance(l, Ref):
            return self.truth(self.heap[l.id])
        if isinstance(l, Arr):
            n = self.asize(l)
            c = pcval(n)
            if c is None:
                g = self.eq0(padd(n, pconst(1), -1))
                self.rz("ValueError", b.NOT(g))
                return b.var(("truth", self.term(self.content(l))))
            if c > 1 or c == 0:
                self.rz("ValueError")
                return 0
            return self.truth(self.flat_items(l)[0])
        if isinstance(l, Tm):
            return b.var(("truth", l.t))
        return 1

    def asize(self, a):
        p = pconst(1)
        for s in a.shape:
            p = pmul(p, s)
        return p

    def flat_items(self, a):
        n = pcval(self.asize(a))
        if n is None:
            self.fail("elements of an array of unknown size")
        seqs = []
        for g, c in self.content(a):
            seqs.append((g, list(c.items) if isinstance(c, Vec) else [self.elem(c, i, a) for i in range(int(n))]))
        if len(seqs) == 1:
            return seqs[0][1]
        return [tuple((self.bdd.AND(g, gg), l) for g, s in seqs for gg, l in s[i]) for i in range(int(n))]

    def canon(self, p):
        """scale so that the leading coefficient is +-1; returns (polynomial, sign)"""
        if not p:
            return p, 1
        c = p[0][1]
        q = tuple((m, x / abs(c)) for m, x in p)
        return q, 1

    def order(self, kind, p):
        """atom p > 0 or p >= 0"""
        c = pcval(p)
        if c is not None:
            return 1 if (c > 0 if kind == "gt" else c >= 0) else 0
        b = self.bdd
        q, _ = self.canon(p)
        if pint(q):
            # integers are totally ordered: p >= 0 is not (-p > 0); p > 0 is p - 1 >= 0 only up to scaling: keep gt
            if kind == "ge":
                return b.NOT(self.order("gt", pneg(q)))
        return b.var((kind, q))

    def eq0(self, p):
        c = pcval(p)
        if c is not None:
            return 1 if c == 0 else 0
        q, _ = self.canon(p)
        n = pneg(q)
        return self.bdd.var(("eq", max(q, n, key=repr)))

    def compare(self, op, x, y):
        return self.lift(lambda a, c: self.lcompare(op, a, c), x, y)

    def num(self, l):
        if isinstance(l, N):
            return l.p
        if isinstance(l, B) and l.g in (0, 1):
            return pconst(l.g)
        if isinstance(l, K) and isinstance(l.v, (int, float, Fraction)) and l.v == l.v and abs(l.v) != float("inf"):
            return pconst(Fraction(l.v))
        if isinstance(l, Tm):
            return patom(l.t)
        if isinstance(l, Arr) and not l.shape:
            return self.num(self.only(self.flat_items(l)[0]))
        return None

    def dtname(self, l):
        """(name, is_dtype_object) or None"""
        if isinstance(l, Dt):
            return l.name, True
        if isinstance(l, Ext) and l.path in NPDT:
            return NPDT[l.path], False
        return None

    def lcompare(self, op, a, c):
        b = self.bdd
        if isinstance(op, (ast.IsNot, ast.NotIn, ast.NotEq)):
            if isinstance(op, ast.NotEq) and (isinstance(a, Arr) or isinstance(c, Arr)):
                return self.lift(lambda l: self.not_(l), V(self.elementwise(a, c, lambda x, y: self.compare(ast.Eq(), x, y), "bool", "==")))
            pos = {ast.IsNot: ast.Is, ast.NotIn: ast.In, ast.NotEq: ast.Eq}[type(op)]()
            t = self.lcompare(pos, a, c)
            return B(b.NOT(self.truth(V(t) if isinstance(t, Leaf) else t)), False)
        if isinstance(op, ast.Is):
            if a == c:
                return B(1, False)
            if isinstance(a, B) and isinstance(c, B):
                return B(b.NOT(b.ite(a.g, b.NOT(c.g), c.g)), False) if not (a.npy or c.npy) else B(0, False)
            if isinstance(a, Tm) or isinstance(c, Tm):
                if isinstance(a, K) or isinstance(c, K):
                    return B(b.var(("is", str(self.lterm(a)), str(self.lterm(c)))), False)
                self.fail(f"identity of {a} and {c}")
            return B(0, False)
        if isinstance(op, ast.In):
            if isinstance(c, Ref) or isinstance(c, (Seq, Dic)):
                cont = self.only(self.heap[c.id]) if isinstance(c, Ref) else c
                hashed = isinstance(cont, Dic) or cont.kind in ("set", "frozenset")
                g = 0
                for x in ([V(k) for k, _ in cont.items] if isinstance(cont, Dic) else cont.items):
                    r = self.lift(lambda l: self.lcompare(ast.Eq(), a, l) if not hashed else B(1 if self.samekey(a, l) else 0, False), x)
                    g = b.OR(g, self.truth(r))
                return B(g, False)
            if isinstance(c, K) and isinstance(a, K):
                return B(1 if a.v in c.v else 0, False)
            self.fail(f"membership in {c}")
        if isinstance(a, Arr) or isinstance(c, Arr):
            if isinstance(c, K) and c.v is None or isinstance(a, K) and a.v is None:
                return B(0, False)
            return self.elementwise(a, c, lambda x, y: self.compare(op, x, y), "bool", type(op).__name__)
        if isinstance(op, ast.Eq):
            da, dc = self.dtname(a), self.dtname(c)
            if da and dc:
                if da[1] or dc[1]:
                    return B(1 if da[0] == dc[0] else 0, False)
                return B(1 if a == c else 0, False)
            if da and da[1] and isinstance(c, K) and isinstance(c.v, str) or dc and dc[1] and isinstance(a, K) and isinstance(a.v, str):
                nm, s = (da[0], c.v) if da else (dc[0], a.v)
                return B(1 if {"f8": "float64", "f4": "float32", "float": "float64", "d": "float64", "f": "float32", "double": "float64", "single": "float32", "<f8": "float64", "<f4": "float32"}.get(s, s) == nm else 0, False)
            if isinstance(a, K) and isinstance(c, K):
                return B(1 if a.v == c.v else 0, False)
            if isinstance(a, Tm) and isinstance(c, K) and isinstance(c.v, str) or isinstance(c, Tm) and isinstance(a, K) and isinstance(a.v, str):
                t, s = (a.t, c.v) if isinstance(a, Tm) else (c.t, a.v)
                if t[0] == "otherstr":
                    return B(1 if s not in t[1] and False else 0, False)
                return B(b.var(("streq", t, s)), False)
            if isinstance(a, (Seq, Ref)) and isinstance(c, (Seq, Ref)):
                sa = self.only(self.heap[a.id]) if isinstance(a, Ref) else a
                sc = self.only(self.heap[c.id]) if isinstance(c, Ref) else c
                if isinstance(sa, Seq) and isinstance(sc, Seq):
                    if sa.kind != sc.kind or len(sa.items) != len(sc.items):
                        return B(0, False)
                    g = 1
                    for x, y in zip(sa.items, sc.items):
                        g = b.AND(g, self.truth(self.compare(op, x, y)))
                    return B(g, False)
            if isinstance(a, B) and isinstance(c, B):
                return B(b.NOT(b.ite(a.g, b.NOT(c.g), c.g)), a.npy or c.npy)
            if isinstance(a, (Cls, Fn, Ext)) or isinstance(c, (Cls, Fn, Ext)):
                return B(1 if a == c else 0, False)
        pa, pc = self.num(a), self.num(c)
        if pa is not None and pc is not None:
            d = padd(pa, pc, -1)
            npy = isinstance(a, N) and self.isnp(pa) or isinstance(c, N) and self.isnp(pc)
            if isinstance(op, ast.Eq):
                return B(self.eq0(d), npy)
            if isinstance(op, ast.Gt):
                return B(self.order("gt", d), npy)
            if isinstance(op, ast.GtE):
                return B(self.order("ge", d), npy)
            if isinstance(op, ast.Lt):
                return B(self.order("gt", pneg(d)), npy)
            if isinstance(op, ast.LtE):
                return B(self.order("ge", pneg(d)), npy)
        if isinstance(op, ast.Eq):
            if type(a) is not type(c) and not isinstance(a, Tm) and not isinstance(c, Tm):
                return B(0, False)
            self.fail(f"comparison of {a} and {c}")
        if isinstance(a, K) and isinstance(c, K) and isinstance(a.v, str) and isinstance(c.v, str):
            self.fail("string order")
        if isinstance(a, (Tm,)) or isinstance(c, Tm):
            self.fail(f"order of {a} and {c}")
        self.rz("TypeError")
        return ()

    def samekey(self, a, l):
        if a == l:
            return True
        x, y = self.num(a), self.num(l)
        return x is not None and x == y and pcval(x) is not None

    def isnp(self, p):
        return any(isinstance(t, tuple) and t[0] == "el" for m, _ in p for t in m)

    def not_(self, l):
        if isinstance(l, Arr):
            return self.mapel(l, lambda x: self.lift(self.not_, x), "bool")
        if isinstance(l, B):
            return B(self.bdd.NOT(l.g), l.npy)
        self.fail("~ on " + repr(l))

    def mapel(self, a, f, dt=None, name="map"):
        n = pcval(self.asize(a))
        if n is None:
            self.fail("element-wise operation on an array of unknown size")
        its = [f(x) for x in self.flat_items(a)]
        return self.arr(V(Vec(tuple(its))), V(Dt(dt)) if dt else self.dt[a.buf], a.shape)

    def elementwise(self, a, c, f, dt, name):
        def its(l):
            return self.flat_items(l) if isinstance(l, Arr) else None
        if isinstance(a, Ref) or isinstance(a, Seq):
            a = self.only(self.mkarray(V(a), None))
        if isinstance(c, Ref) or isinstance(c, Seq):
            c = self.only(self.mkarray(V(c), None))
        x, y = its(a), its(c)
        sh = a.shape if x is not None else c.shape
        if x is not None and y is not None:
            if a.shape != c.shape:
                if len(x) == 1 and len(y) != 1:
                    x, sh = x * len(y), c.shape
                elif len(y) == 1:
                    y = y * len(x)
                elif len(a.shape) == 1 and len(c.shape) == 1:
                    self.rz("ValueError")
                    return ()
                else:
                    self.fail("broadcast")
        elif x is None:
            x = [V(a)] * len(y)
        else:
            y = [V(c)] * len(x)
        out = [f(p, q) for p, q in zip(x, y)]
        if dt is None:
            d = self.dt[(a if isinstance(a, Arr) else c).buf]
        else:
            d = V(Dt(dt))
        out = [self.lift(lambda l: B(l.g, True) if isinstance(l, B) else l, v) for v in out]
        return self.arr(V(Vec(tuple(out))), d, sh)

    def binop(self, op, x, y):
        return self.lift(lambda a, c: self.lbinop(op, a, c), x, y)

    def lbinop(self, op, a, c):
        b = self.bdd
        if isinstance(a, Arr) or isinstance(c, Arr):
            if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)):
                return self.elementwise(a, c, lambda x, y: self.binop(op, x, y), "bool", type(op).__name__)
            return self.elementwise(a, c, lambda x, y: self.binop(op, x, y), None, type(op).__name__)
        if isinstance(op, ast.Add) and isinstance(a, K) and isinstance(c, K) and isinstance(a.v, str) and isinstance(c.v, str):
            return K(a.v + c.v)
        if isinstance(op, ast.Add) and isinstance(a, (Ref, Seq)) and isinstance(c, (Ref, Seq)):
            sa = self.only(self.heap[a.id]) if isinstance(a, Ref) else a
            it = self.items(V(a)) + self.items(V(c))
            return self.newlist(it) if sa.kind == "list" else Seq("tuple", tuple(it))
        if isinstance(op, ast.Mult) and (isinstance(a, (Ref, Seq)) or isinstance(c, (Ref, Seq))):
            s, n = (a, c) if isinstance(a, (Ref, Seq)) else (c, a)
            k = pcval(self.num(n))
            if k is None:
                self.fail("repetition of unknown count")
            it = self.items(V(s)) * int(k)
            kind = (self.only(self.heap[s.id]) if isinstance(s, Ref) else s).kind
            return self.newlist(it) if kind == "list" else Seq("tuple", tuple(it))
        if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)) and isinstance(a, B) and isinstance(c, B):
            g = b.AND(a.g, c.g) if isinstance(op, ast.BitAnd) else b.OR(a.g, c.g) if isinstance(op, ast.BitOr) else b.ite(a.g, b.NOT(c.g), c.g)
            return B(g, a.npy or c.npy)
        if isinstance(op, ast.BitOr) and (isinstance(a, (Ann, Ext, Cls)) or isinstance(c, (Ann, Ext, Cls))):
            return Ann("union")
        if isinstance(op, ast.BitOr) and isinstance(a, Ref) and isinstance(c, Ref):
            da, dc = self.only(self.heap[a.id]), self.only(self.heap[c.id])
            d = dict(da.items)
            d.update(dict(dc.items))
            return self.newdict(list(d.items()))
        if isinstance(a, B):
            a = N(pconst(1)) if a.g == 1 else N(()) if a.g == 0 else a
        if isinstance(a, B) or isinstance(c, B) and c.g > 1:
            def n_(l):
                return ((l.g, N(pconst(1))), (b.NOT(l.g), N(()))) if isinstance(l, B) else V(l)
            return self.binop(op, n_(a), n_(c))
        pa, pc = self.num(a), self.num(c)
        if pa is None or pc is None:
            if isinstance(a, Tm) or isinstance(c, Tm) or isinstance(a, Attr):
                self.fail(f"arithmetic on {a}, {c}")
            self.rz("TypeError")
            return ()
        if isinstance(op, ast.Add):
            return N(padd(pa, pc))
        if isinstance(op, ast.Sub):
            return N(padd(pa, pc, -1))
        if isinstance(op, ast.Mult):
            return N(pmul(pa, pc))
        ca, cc = pcval(pa), pcval(pc)
        if isinstance(op, ast.Div) and cc:
            return N(pmul(pa, pconst(1 / cc)))
        if ca is not None and cc is not None and cc != 0:
            if isinstance(op, ast.FloorDiv):
                return N(pconst(ca // cc))
            if isinstance(op, ast.Mod):
                return N(pconst(ca % cc))
            if isinstance(op, ast.Pow) and cc.denominator == 1:
                return N(pconst(ca ** int(cc)))
        return N(patom((type(op).__name__, pa, pc)))

    # ------------------------------------------------------------ expressions
    def ev(self, n, fr):
        sn = self.node
        if hasattr(n, "lineno"):
            self.node = n
        r = self.ev_(n, fr)
        self.node = sn
        return self.norm(r) if not isinstance(r, Leaf) else V(r)

    def name(self, n, fr):
        f = fr
        out, need = [], self.live
        b = self.bdd
        while f is not None:
            if n in f.env:
                for g, l in f.env[n]:
                    out.append((b.AND(g, need), l))
                have = b.OR(*[g for g, _ in f.env[n]])
                need = b.AND(need, b.NOT(have))
                if f.loc and f is fr and not b.empty(need):
                    pass
                if b.empty(need):
                    return tuple(out)
                if f is fr:
                    self.rz("UnboundLocalError", need)
                    return tuple(out)
            f = f.parent
        if not b.empty(need):
            mod = self.mods[fr.mod].env if fr.mod in self.mods else {}
            if n in mod and f is None and not out:
                return mod[n]
            if n in EXCS or n in BUILTINS:
                return V(Ext("builtins." + n))
            if n in ("__name__",):
                return V(K("interpn"))
            self.fail(f"unknown name {n}")
        return tuple(out)

    def sub(self, n, fr):
        """index expression -> gated leaf (N, Slice, Seq, K(Ellipsis))"""
        if isinstance(n, ast.Slice):
            f = lambda x: self.ev(x, fr) if x is not None else NONE
            return self.lift(lambda a, c, d: Slice(a, c, d), f(n.lower), f(n.upper), f(n.step))
        if isinstance(n, ast.Tuple):
            return V(Seq("tuple", tuple(self.sub(e, fr) for e in n.elts)))
        return self.ev(n, fr)

    def ev_(self, n, fr):
        b = self.bdd
        if isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                return B(1 if v else 0, False)
            if isinstance(v, (int, float)):
                if v != v or abs(v) == float("inf"):
                    return K(v)
                return N(pconst(Fraction(v)))
            return K(v)
        if isinstance(n, ast.Name):
            return self.name(n.id, fr)
        if isinstance(n, ast.Attribute):
            return self.lift(lambda l: self.attr(l, n.attr), self.ev(n.value, fr))
        if isinstance(n, ast.Call):
            return self.call(n, fr)
        if isinstance(n, ast.BoolOp):
            isand = isinstance(n.op, ast.And)
            out = []
            saved = self.live
            fin = 0
            for i, e in enumerate(n.values):
                v = self.ev(e, fr)
                if i == len(n.values) - 1:
                    out += v
                    break
                # truth of each value; the value itself is the result where evaluation stops
                t = self.truth(v)
                stop = b.NOT(t) if isand else t
                out += [(b.AND(g, stop, self.live), l) for g, l in v]
                fin = b.OR(fin, b.AND(self.live, stop))
                self.live = b.AND(self.live, b.NOT(stop))
                if b.empty(self.live):
                    self.live = 0
                    break
            self.live = b.OR(self.live, fin)
            # normalise booleans: merge non-numpy boolean cases
            return self.boolmerge(out)
        if isinstance(n, ast.UnaryOp):
            v = self.ev(n.operand, fr)
            if isinstance(n.op, ast.Not):
                return B(b.NOT(self.truth(v)), False)
            if isinstance(n.op, ast.USub):
                return self.lift(lambda l: self.neg(l), v)
            if isinstance(n.op, ast.Invert):
                return self.lift(self.not_, v)
            return v
        if isinstance(n, ast.BinOp):
            x = self.ev(n.left, fr)
            y = self.ev(n.right, fr)
            return self.binop(n.op, x, y)
        if isinstance(n, ast.Compare):
            x = self.ev(n.left, fr)
            out = None
            for op, r in zip(n.ops, n.comparators):
                y = self.ev(r, fr)
                c = self.compare(op, x, y)
                if out is None:
                    out = c
                else:
                    out = V(B(b.AND(self.truth(out), self.truth(c)), False))
                x = y
            return out
        if isinstance(n, ast.IfExp):
            c = self.truth(self.ev(n.test, fr))
            ry, rn, l1, l2 = self.branch(c, lambda: self.ev(n.body, fr), lambda: self.ev(n.orelse, fr))
            return tuple((b.AND(g, l1), l) for g, l in ry) + tuple((b.AND(g, l2), l) for g, l in rn)
        if isinstance(n, (ast.Tuple, ast.List, ast.Set)):
            kind = type(n).__name__.lower()
            cases = self.elts(n.elts, fr)
            v = tuple((g, Seq(kind, tuple(its))) for g, its in cases)
            return v if kind != "list" else V(Ref(self.buf(v, None)))
        if isinstance(n, ast.Dict):
            items = []
            for k, v in zip(n.keys, n.values):
                if k is None:
                    d = self.only(self.ev(v, fr))
                    items += list(self.only(self.heap[d.id]).items)
                else:
                    items.append((self.only(self.ev(k, fr), "dictionary key"), self.ev(v, fr)))
            return self.newdict(items)
        if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            out = []
            cf = Frame(fr.mod, fr)
            self.comp(n.generators, 0, cf, lambda: out.append((self.live, self.ev(n.elt, cf))), [0])
            return self.complist(out)
        if isinstance(n, ast.DictComp):
            out = []
            cf = Frame(fr.mod, fr)
            self.comp(n.generators, 0, cf, lambda: out.append((self.only(self.ev(n.key, cf), "key"), self.ev(n.value, cf))), [0])
            return self.newdict(out)
        if isinstance(n, ast.JoinedStr):
            v = V(K(""))
            for p in n.values:
                if isinstance(p, ast.Constant):
                    x = V(K(p.value))
                else:
                    x = self.lift(self.tostr, self.ev(p.value, fr))
                v = self.lift(lambda a, c: K(a.v + c.v) if isinstance(a, K) and isinstance(c, K) else Tm(("concat", self.lterm(a), self.lterm(c))), v, x)
            return v
        if isinstance(n, ast.Subscript):
            base = self.ev(n.value, fr)
            if all(isinstance(l, (Ext, Ann, Cls)) for _, l in base):
                return Ann(ast.unparse(n))
            return self.getitem(base, self.sub(n.slice, fr))
        if isinstance(n, ast.Lambda):
            a = n.args
            self.fns.append((n, fr, [self.ev(x, fr) for x in a.defaults], [self.ev(x, fr) if x is not None else None for x in a.kw_defaults], self.file))
            return Fn(len(self.fns) - 1)
        if isinstance(n, ast.NamedExpr):
            v = self.ev(n.value, fr)
            f = fr
            self.assign(n.target, v, f)
            return v
        if isinstance(n, ast.Starred):
            self.fail("starred expression")
        self.fail("expression " + type(n).__name__)

    def boolmerge(self, out):
        b = self.bdd
        rest, t, f = [], {}, {}
        for g, l in out:
            if isinstance(l, B):
                t[l.npy] = b.OR(t.get(l.npy, 0), b.AND(g, l.g))
                f[l.npy] = b.OR(f.get(l.npy, 0), g)
            else:
                rest.append((g, l))
        for npy, g in f.items():
            rest.append((g, B(t[npy], npy)))
        return tuple(rest)

    def neg(self, l):
        if isinstance(l, Arr):
            return self.mapel(l, lambda x: self.lift(self.neg, x))
        p = self.num(l)
        if p is None:
            self.fail("negation of " + repr(l))
        return N(pneg(p))

    def elts(self, es, fr):
        """(guard, elements) of a display or argument list; several when an unpacked value has several lengths"""
        cases = [(1, [])]
        for e in es:
            if isinstance(e, ast.Starred):
                more = self.itemcases(self.ev(e.value, fr))
                cases = [(self.bdd.AND(g, gg), its + m) for g, its in cases for gg, m in more if not self.bdd.empty(self.bdd.AND(self.live, g, gg))]
            else:
                x = self.ev(e, fr)
                cases = [(g, its + [x]) for g, its in cases]
        return cases

    def complist(self, out):
        """elements with guards; the element guards must agree with the context, or the list length varies"""
        b = self.bdd
        if all(b.implies(self.live, g) for g, _ in out):
            return self.newlist([v for _, v in out])
        # gated length
        lists = [(self.live, ())]
        for g, v in out:
            nl = []
            for gg, its in lists:
                a, c = b.AND(gg, g), b.AND(gg, b.NOT(g))
                if not b.empty(a):
                    nl.append((a, its + (v,)))
                if not b.empty(c):
                    nl.append((c, its))
            lists = nl
            if len(lists) > 64:
                self.fail("filtered list of too many shapes")
        return V(Ref(self.buf(tuple((g, Seq("list", its)) for g, its in lists), None)))

    def comp(self, gens, i, fr, emit, brk):
        b = self.bdd
        if i == len(gens):
            emit()
            return
        g = gens[i]
        it = self.ev(g.iter, fr)
        tot = 0
        for gg, l in self.norm(it):
            saved = self.live
            self.live = b.AND(saved, gg)
            for x in self.items(V(l)):
                self.assign(g.target, x, fr)
                skip = 0
                for c in g.ifs:
                    t = self.truth(self.ev(c, fr))
                    skip = b.OR(skip, b.AND(self.live, b.NOT(t)))
                    self.live = b.AND(self.live, t)
                if not b.empty(self.live):
                    self.comp(gens, i + 1, fr, emit, brk)
                self.live = b.OR(self.live, skip)
            tot = b.OR(tot, self.live)
            self.live = b.AND(saved, b.NOT(gg))
        self.live = b.OR(tot, self.live) if tot else tot if self.norm(it) else self.live

    def tostr(self, l):
        if isinstance(l, K):
            return K(str(l.v))
        if isinstance(l, N) and pcval(l.p) is not None:
            c = pcval(l.p)
            return K(str(int(c)) if c.denominator == 1 else str(float(c)))
        if isinstance(l, Dt):
            return K(l.name)
        if isinstance(l, B) and l.g in (0, 1):
            return K(str(bool(l.g)))
        if isinstance(l, B):
            return ((l.g, K("True")), (self.bdd.NOT(l.g), K("False")))
        if isinstance(l, Tm):
            return Tm(("str", l.t))
        if isinstance(l, Arr) and not l.shape:
            return Tm(("str", self.lterm(l)))
        return Tm(("str", self.lterm(l)))

    # ------------------------------------------------------------ attributes
    def extattr(self, l, name):
        return Ext(l.path + "." + name)

    def attr(self, l, name):
        b = self.bdd
        if isinstance(l, Mod):
            v = self.mod_attr(l.name, name)
            if v is None:
                self.rz("AttributeError")
                return ()
            return v
        if isinstance(l, Ext):
            if l.path == "rawext" and self.raw_sigs and name not in self.raw_sigs:
                self.rz("AttributeError")
                return ()
            if l.path in ("numpy.inf", "math.inf"):
                self.fail("inf")
            return self.extattr(l, name)
        if isinstance(l, Obj):
            for n, v in l.fields:
                if n == name:
                    return v
            j, v = self.lookup(l.cls, name)
            if v is None:
                if name == "__class__":
                    return Cls(l.cls)
                if name.startswith("model_"):
                    return Meth(l, name)
                self.rz("AttributeError")
                return ()
            return self.bind(j, name, v, l, l.cls)
        if isinstance(l, MInst):
            d = self.heap[l.id]
            if name in d:
                return d[name]
            j, v = self.lookup(l.id[1], name)
            if v is None:
                self.rz("AttributeError")
                return ()
            return self.bind(j, name, v, l, l.id[1])
        if isinstance(l, Cls):
            if name == "__name__":
                return K(self.classes[l.ident].name)
            j, v = self.lookup(l.ident, name)
            if v is None:
                if name.startswith("model_"):
                    return Meth(l, name)
                self.rz("AttributeError")
                return ()
            ds = self.classes[j].decos.get(name, [])
            if any(isinstance(d, Ext) and d.path == "builtins.classmethod" for d in ds):
                return Bound(self.only(v).ident, l)
            return v
        if isinstance(l, Arr):
            if name == "dtype":
                return self.dt[l.buf]
            if name == "shape":
                return Seq("tuple", tuple(V(N(s)) for s in l.shape))
            if name == "size":
                return N(self.asize(l))
            if name == "ndim":
                return N(pconst(len(l.shape)))
            if name in ("data", "flags", "flat"):
                return Attr(l, name)
            if name == "T":
                if len(l.shape) <= 1:
                    return l
                return self.arr(V(Tm(("T", self.term(self.content(l))))), self.dt[l.buf], l.shape[::-1], 0)
            return Meth(l, name)
        if isinstance(l, Attr):
            a = l.recv
            if l.name == "data":
                if name in ("contiguous", "c_contiguous", "f_contiguous"):
                    if name == "contiguous" or len(a.shape) == 1:
                        return B(a.contig, False)
                    return B(a.contig if name == "c_contiguous" else b.var(("fcontig", a.buf)), False)
                if name == "nbytes":
                    self.fail("nbytes")
            if l.name == "flags":
                return self.flag(a, name)
            self.fail(f"attribute {l.name}.{name}")
        if isinstance(l, Dt):
            if name == "name":
                return K(l.name)
            if name == "type":
                return Ext("numpy." + ("bool_" if l.name == "bool" else l.name))
            if name in ("kind", "itemsize", "char"):
                m = {"float64": ("f", 8, "d"), "float32": ("f", 4, "f"), "bool": ("b", 1, "?"), "int64": ("i", 8, "l")}.get(l.name)
                if m is None:
                    return Tm((name, l.name))
                x = m[("kind", "itemsize", "char").index(name)]
                return K(x) if isinstance(x, str) else N(pconst(x))
            if name == "str":
                return K({"float64": "<f8", "float32": "<f4"}.get(l.name, l.name))
        if isinstance(l, Fn) and name in ("__name__", "__doc__"):
            return K(getattr(self.fns[l.ident][0], "name", "lambda"))
        if isinstance(l, (Seq, Ref, Dic, N, B, K, Tm, Exc, Dt)):
            if isinstance(l, K) and l.v is None:
                self.rz("AttributeError")
                return ()
            return Meth(l, name)
        self.fail(f"attribute {name} of {l}")

    def flag(self, a, name):
        n = name.lower()
        if n in ("c_contiguous", "contiguous", "carray") or len(a.shape) == 1 and n in ("f_contiguous", "forc", "fnc"):
            return B(a.contig, False)
        return B(self.bdd.var(("flag", n, a.buf)), False)

    def bind(self, j, name, v, self_, cls):
        ds = self.classes[j].decos.get(name, [])

        def f(l):
            if not isinstance(l, Fn):
                return l
            for d in ds:
                if isinstance(d, Ext) and d.path == "builtins.classmethod":
                    return Bound(l.ident, Cls(cls))
                if isinstance(d, Ext) and d.path == "builtins.staticmethod":
                    return l
                if isinstance(d, Ext) and d.path in ("builtins.property", "functools.cached_property"):
                    return self.call_fn(l.ident, [V(self_)], {})
            return Bound(l.ident, self_)
        return self.lift(f, v)

    # ------------------------------------------------------------ subscripts
    def getitem(self, base, idx):
        return self.lift(self.lgetitem, base, idx)

    def lgetitem(self, l, i):
        b = self.bdd
        if isinstance(l, Ref):
            return self.lift(lambda s: self.lgetitem(s, i), self.heap[l.id])
        if isinstance(l, Dic):
            for k, v in l.items:
                if self.samekey(i, k) or isinstance(i, Seq) and isinstance(k, Seq) and self.seqkey(i, k):
                    return v
            r = self.dictlookup(l, i)
            if r is not None:
                return r
            self.rz("KeyError")
            return ()
        if isinstance(l, MInst):
            return self.lgetitem(Seq("tuple", tuple(self.heap[l.id].values())), i)
        if isinstance(l, Seq):
            if isinstance(i, B) and i.g > 1:
                return self.lift(lambda k: self.lgetitem(l, k), ((i.g, N(pconst(1))), (b.NOT(i.g), N(()))))
            if isinstance(i, Slice):
                lo, hi, st = (self.intval(x) for x in (i.lo, i.hi, i.step))
                it = l.items[slice(lo, hi, st)]
                return self.newlist(it) if l.kind == "list" else Seq("tuple", it)
            k = self.intval(i)
            if not -len(l.items) <= k < len(l.items):
                self.rz("IndexError")
                return ()
            return l.items[k]
        if isinstance(l, K) and isinstance(l.v, str):
            if isinstance(i, Slice):
                return K(l.v[slice(*(self.intval(x) for x in (i.lo, i.hi, i.step)))])
            return K(l.v[self.intval(i)])
        if isinstance(l, Attr) and l.name == "flags":
            return self.flag(l.recv, i.v)
        if isinstance(l, Arr):
            if isinstance(i, K) and i.v is Ellipsis:
                return l
            if isinstance(i, Slice) and (i.lo, i.hi, i.step) == (K(None),) * 3:
                return l
            if isinstance(i, Seq) and i.items == ():
                return l if l.shape else self.flat_items(l)[0]
            if isinstance(i, Seq) and all(x == V(K(Ellipsis)) or self.only(x) == Slice(K(None), K(None), K(None)) for x in i.items):
                return l
            if isinstance(i, Slice) and len(l.shape) == 1:
                n = pcval(l.shape[0])
                if n is None:
                    self.fail("slice of unknown length")
                lo, hi, st = slice(*(self.intval(x) for x in (i.lo, i.hi, i.step))).indices(int(n))
                cnt = len(range(lo, hi, st))
                o, s0, _ = l.view or (0, 1, int(n))
                ct = l.contig if st == 1 or cnt <= 1 else 0
                return Arr(l.buf, (pconst(cnt),), ct, (o + s0 * lo, s0 * st, cnt))
            if isinstance(i, (N, K)):
                k = self.intval(i)
                n = pcval(l.shape[0]) if l.shape else None
                if n is None:
                    return self.fail("element of an array of unknown length") if k is None else N(patom(("el", self.term(self.content(l)), k)))
                if not -n <= k < n:
                    self.rz("IndexError")
                    return ()
                k = int(k % n)
                if len(l.shape) == 1:
                    return self.flat_items(l)[k]
                return self.row(l, k)
            self.fail(f"index {i}")
        if isinstance(l, (Ext, Ann)):
            return Ann("subscript")
        self.fail(f"subscript of {l}")

    def seqkey(self, i, k):
        if len(i.items) != len(k.items):
            return False
        for x, y in zip(i.items, k.items):
            x, y = self.norm(x), self.norm(y)
            if len(x) != 1 or len(y) != 1:
                return False
            a, c = x[0][1], y[0][1]
            if not (self.samekey(a, c) or isinstance(a, B) and isinstance(c, B) and a.g == c.g):
                return False
        return True

    def dictlookup(self, l, i):
        """lookup with gated booleans or gated tuples: split the key into cases"""
        b = self.bdd
        cases = self.keycases(i)
        if cases is None or len(cases) <= 1:
            return None
        out = []
        saved, surv = self.live, 0
        for g, k in cases:
            self.live = b.AND(saved, g)
            if b.empty(self.live):
                continue
            v = self.lgetitem(l, k)
            v = V(v) if isinstance(v, Leaf) else v
            out += [(b.AND(gg, self.live), x) for gg, x in v]
            surv = b.OR(surv, self.live)
        self.live = surv
        return tuple(out)

    def keycases(self, i):
        b = self.bdd
        if isinstance(i, B) and i.g > 1:
            return [(i.g, B(1, i.npy)), (b.NOT(i.g), B(0, i.npy))]
        if isinstance(i, Seq):
            cs = [(1, ())]
            for x in i.items:
                nc = []
                for g, pre in cs:
                    for gg, l in self.norm(x):
                        for g3, l3 in (self.keycases(l) or [(1, l)]):
                            a = b.AND(g, gg, g3)
                            if not b.empty(b.AND(a, self.live)):
                                nc.append((a, pre + (V(l3),)))
                cs = nc
            return [(g, Seq("tuple", p)) for g, p in cs]
        return None

    def intval(self, l):
        if isinstance(l, K) and l.v is None:
            return None
        p = self.num(l)
        c = pcval(p) if p is not None else None
        if c is None or c.denominator != 1:
            self.fail(f"index {l} is not a known integer")
        return int(c)

    def setitem(self, base, idx, v):
        def f(l, i):
            if isinstance(l, Ref):
                cur = self.heap[l.id]

                def g(s):
                    if isinstance(s, Dic):
                        d = [(k, x) for k, x in s.items if not self.samekey(k, i)]
                        return Dic(tuple(d) + ((i, v),))
                    k = self.intval(i)
                    if not -len(s.items) <= k < len(s.items):
                        self.rz("IndexError")
                        return ()
                    it = list(s.items)
                    it[k] = v
                    return Seq(s.kind, tuple(it))
                self.heap[l.id] = self.merge(self.lift(g, cur), cur)
                return K(None)
            if isinstance(l, Arr):
                whole = isinstance(i, K) and i.v is Ellipsis or isinstance(i, Slice) and (i.lo, i.hi, i.step) == (K(None),) * 3
                if isinstance(i, Seq) and all(self.only(x) in (K(Ellipsis), Slice(K(None), K(None), K(None))) for x in i.items):
                    whole = True
                if whole:
                    self.write(l, v)
                    return K(None)
                k = self.intval(i)
                it = self.flat_items(l)
                if len(l.shape) != 1:
                    self.fail("element assignment")
                if not -len(it) <= k < len(it):
                    self.rz("IndexError")
                    return K(None)
                it[k] = v
                self.setcontent(l, V(Vec(tuple(it))))
                return K(None)
            self.fail(f"item assignment to {l}")
        self.lift(f, base, idx)

    def write(self, a, v):
        """a[...] = v"""
        def f(l):
            if isinstance(l, Arr):
                if l.shape == a.shape:
                    self.setcontent(a, self.castto(l, a))
                elif pcval(self.asize(l)) == 1:
                    self.setcontent(a, V(Vec(tuple(self.flat_items(l)[0] for _ in range(int(pcval(self.asize(a))))))))
                elif len(l.shape) == len(a.shape):
                    self.rz("ValueError")
                else:
                    self.fail("broadcast assignment")
                return K(None)
            if isinstance(l, (Ref, Seq)):
                return self.lift(lambda x: f(x), self.mkarray(V(l), None))
            n = pcval(self.asize(a))
            if n is None:
                self.fail("fill of unknown size")
            self.setcontent(a, V(Vec((V(l),) * int(n))))
            return K(None)
        self.lift(f, v)

    def castto(self, l, a):
        """contents of l as stored in a's data type"""
        return self.castc(self.content(l), self.dt[l.buf], self.dt[a.buf])

    def castc(self, c, src, dst):
        def f(x, s, d):
            if s == d:
                return x
            if isinstance(s, Dt) and isinstance(d, Dt) and s.name == "float32" and d.name == "float64":
                return x
            if isinstance(s, Dt) and isinstance(d, Dt) and d.name in ("float64", "float32", "bool", "int64") and s.name in ("weak",):
                return x
            if isinstance(x, Vec):
                return Vec(tuple(self.lift(lambda e: e if isinstance(e, N) and pcval(e.p) is not None or isinstance(e, K) or isinstance(e, B) and d.name == "bool" else N(patom(("cast", self.lterm(d), self.lterm(e)))), y) for y in x.items))
            return Tm(("cast", self.lterm(d), x.t))
        return self.lift(f, c, src, dst)

    def setcontent(self, a, c):
        if a.view is not None:
            lo, st, n = a.view

            def f(old, new):
                if isinstance(old, Vec) and isinstance(new, Vec):
                    it = list(old.items)
                    for i in range(n):
                        it[lo + st * i] = new.items[i]
                    return Vec(tuple(it))
                self.fail("write through a slice")
            c = self.lift(f, self.heap[a.buf], c)
        self.heap[a.buf] = self.merge(c, self.heap[a.buf])

    # ------------------------------------------------------------ calls
    def call(self, n, fr):
        b = self.bdd
        # lazily evaluated any/all over a generator
        if isinstance(n.func, ast.Name) and n.func.id in ("any", "all") and len(n.args) == 1 and isinstance(n.args[0], ast.GeneratorExp) and n.func.id not in fr.env:
            isall = n.func.id == "all"
            cf = Frame(fr.mod, fr)
            st = [0]

            def emit():
                t = self.truth(self.ev(n.args[0].elt, cf))
                stop = b.AND(self.live, b.NOT(t) if isall else t)
                st[0] = b.OR(st[0], stop)
                self.live = b.AND(self.live, b.NOT(stop))
            self.comp(n.args[0].generators, 0, cf, emit, [0])
            self.live = b.OR(self.live, st[0])
            return B(b.NOT(st[0]) if isall else st[0], False)
        f = self.ev(n.func, fr)
        kwargs = {}
        argcases = self.elts(n.args, fr)
        for k in n.keywords:
            if k.arg is None:
                d = self.only(self.ev(k.value, fr), "keyword dictionary")
                for kk, vv in self.only(self.heap[d.id]).items:
                    kwargs[kk.v] = vv
            else:
                kwargs[k.arg] = self.ev(k.value, fr)
        if any(isinstance(l, Ext) and l.path == "builtins.super" for _, l in f):
            self.fail("super()")
        if len(argcases) == 1:
            return self.lift(lambda l: self.lcall(l, argcases[0][1], kwargs), f)
        which = tuple((g, K(i)) for i, (g, _) in enumerate(argcases))
        return self.lift(lambda l, i: self.lcall(l, argcases[i.v][1], kwargs), f, which)

    def lcall(self, l, args, kwargs):
        args = [self.norm(a) for a in args]
        kwargs = {k: self.norm(v) for k, v in kwargs.items()}
        if isinstance(l, Fn):
            return self.call_fn(l.ident, args, kwargs)
        if isinstance(l, Bound):
            return self.call_fn(l.ident, [V(l.self_)] + args, kwargs)
        if isinstance(l, Partial):
            if isinstance(l.fn, Ext) and l.fn.path.startswith("pydantic"):
                return Partial(l.fn, tuple(args), tuple(kwargs.items()))
            kw = dict(l.kwargs)
            kw.update(kwargs)
            return self.lcall(l.fn, list(l.args) + args, kw)
        if isinstance(l, Cls):
            return self.instantiate(l.ident, args, kwargs)
        if isinstance(l, Ext):
            return self.ext(l.path, args, kwargs)
        if isinstance(l, Meth):
            return self.meth(l.recv, l.name, args, kwargs)
        if isinstance(l, K) and l.v is None or isinstance(l, (N, B, Seq, Arr, Dt)):
            self.rz("TypeError")
            return ()
        self.fail(f"call of {l}")

    def raw(self, name, args, kwargs):
        """a function of the compiled extension: bind by name, record, write the output"""
        sig = self.raw_sigs.get(name)
        if sig is None:
            self.rz("AttributeError")
            return ()
        bound = {}
        for p, a in zip(sig, args):
            bound[p] = a
        if len(args) > len(sig) or set(kwargs) - set(sig) or set(kwargs) & set(bound):
            self.rz("TypeError")
            return ()
        bound.update(kwargs)
        if set(sig) - set(bound) - set(getattr(self, 'raw_opt', {}).get(name, ())):
            self.rz("TypeError")
            return ()
        outs = self.norm(bound["out"])
        self.rawtypes(name, bound)
        if self.bdd.empty(self.live):
            return ()
        outs = self.norm(bound["out"])
        terms = {p: self.argterm(bound[p]) for p in sig if p != "out" and p in bound}
        key = ("call", name) + tuple((p, terms[p]) for p in sig if p in terms)
        err = self.bdd.var(("fails", key))
        g = self.live
        heap = dict(self.heap)
        self.events.append((g, name, bound, key, heap, outs, err))
        self.rz("AssertionError", err)

        def f(o):
            if not isinstance(o, Arr):
                self.rz("TypeError")
                return K(None)
            n = pcval(self.asize(o))
            if name.startswith("check_bounds"):
                nd = len(self.items(bound["obs"]))
                if n != nd:
                    self.rz("AssertionError")
                    return K(None)
                self.setcontent(o, V(Vec(tuple(V(B(self.bdd.var(("flag", i, key)), True)) for i in range(nd)))))
            else:
                self.setcontent(o, V(Tm(("result", key))))
            return K(None)
        self.lift(f, outs)
        return K(None)

    def rawtypes(self, name, bound):
        """argument conversion of the extension: one-dimensional contiguous arrays of the function's precision"""
        prec = {"f64": "float64", "f32": "float32"}.get(name[-3:])

        def need(l, dt, p):
            if isinstance(l, Ref) or isinstance(l, Seq):
                for x in self.items(V(l)):
                    self.lift(lambda y: need(y, dt, p), x)
                return K(None)
            if not isinstance(l, Arr) or len(l.shape) != 1:
                self.rz("TypeError")
                return K(None)
            bad = self.bdd.OR(*[g for g, d in self.norm(self.dt[l.buf]) if not (isinstance(d, Dt) and d.name in (dt, "weak"))])
            self.rz("TypeError", bad)
            self.rz("TypeError", self.bdd.NOT(l.contig))
            return K(None)
        for p, v in bound.items():
            if p in ("starts", "steps", "vals"):
                self.lift(lambda l: need(l, prec, p) if isinstance(l, Arr) else (self.rz("TypeError"), K(None))[1], v)
            elif p in ("obs", "grids"):
                self.lift(lambda l: need(l, prec, p) if isinstance(l, (Ref, Seq)) else (self.rz("TypeError"), K(None))[1], v)
            elif p == "out":
                self.lift(lambda l: need(l, "bool" if name.startswith("check_bounds") else prec, p), v)

    def argterm(self, v):
        """what the extension reads: contents of arrays, elements of sequences"""
        v = self.norm(v)
        ts = {}
        for g, l in v:
            saved = self.live
            self.live = self.bdd.AND(saved, g)
            if isinstance(l, Arr):
                t = ("data", self.term(self.content(l)))
            elif isinstance(l, (Seq, Ref)):
                t = ("seq",) + tuple(self.argterm(x) for x in self.items(V(l)))
            else:
                t = self.lterm(l)
            if isinstance(l, Arr) and l.shape and t[1][0] != "vec" and pcval(self.asize(l)) is not None:
                t = ("seq",) + tuple(self.term(x) for x in self.flat_items(l))
            elif t[0] == "data" and t[1][0] == "vec":
                t = ("seq",) + t[1][1:]
            ts[t] = self.bdd.OR(ts.get(t, 0), g)
            self.live = saved
        if len(ts) == 1:
            return next(iter(ts))
        return ("cases",) + tuple(sorted(ts.items(), key=repr))

    from pylib import ext, meth, mkarray, isinst, arr_like
