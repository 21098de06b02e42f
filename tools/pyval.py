"""Value domain of the Python analyser: gated values (guards are BDDs over canonical atoms)."""
from fractions import Fraction


# ------------------------------------------------------------------ boolean guards
class Bdd:
    """Reduced ordered binary decision diagrams over hashable atoms; axioms constrain the atoms."""

    def __init__(self):
        self.atoms, self.ids, self.unique, self.memo = [], {}, {}, {}
        self.nodes = [None, None]  # 0 false, 1 true
        self.ax = 1

    def var(self, atom):
        if atom not in self.ids:
            self.ids[atom] = len(self.atoms)
            self.atoms.append(atom)
            n = self.mk(self.ids[atom], 0, 1)
            self.axioms(atom, n)
            return n
        return self.mk(self.ids[atom], 0, 1)

    def mk(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        if k not in self.unique:
            self.unique[k] = len(self.nodes)
            self.nodes.append(k)
        return self.unique[k]

    def ite(self, f, g, h):
        if f == 1:
            return g
        if f == 0:
            return h
        if g == h:
            return g
        if g == 1 and h == 0:
            return f
        k = (f, g, h)
        if k in self.memo:
            return self.memo[k]
        top = min(self.nodes[x][0] for x in (f, g, h) if x > 1)

        def co(x, b):
            if x <= 1 or self.nodes[x][0] != top:
                return x
            return self.nodes[x][2 if b else 1]

        r = self.mk(top, self.ite(co(f, 0), co(g, 0), co(h, 0)), self.ite(co(f, 1), co(g, 1), co(h, 1)))
        self.memo[k] = r
        return r

    def AND(self, *xs):
        r = 1
        for x in xs:
            r = self.ite(r, x, 0)
        return r

    def OR(self, *xs):
        r = 0
        for x in xs:
            r = self.ite(r, 1, x)
        return r

    def NOT(self, x):
        return self.ite(x, 0, 1)

    def assume(self, x):
        self.ax = self.AND(self.ax, x)

    def empty(self, x):
        return self.AND(x, self.ax) == 0

    def implies(self, a, b):
        return self.empty(self.AND(a, self.NOT(b)))

    def equal(self, a, b, under=1):
        return self.empty(self.AND(under, self.ite(a, self.NOT(b), b)))

    def axioms(self, atom, n):
        """order atoms: gt(p) => ge(p); gt(p) excludes gt(-p), ge(-p); eq(p) <=> ge(p) & ge(-p)"""
        if not (isinstance(atom, tuple) and atom and atom[0] in ("gt", "ge", "eq")):
            return
        k, p = atom
        q = pneg(p)
        if k == "eq":  # equalities are closed under sums and differences
            es = [o for o in self.atoms if isinstance(o, tuple) and o and o[0] == "eq" and o != atom]
            seen = {o[1]: self.mk(self.ids[o], 0, 1) for o in es}
            for o in es:
                m = seen[o[1]]
                for r in (padd(p, o[1]), padd(p, o[1], -1)):
                    for c in (r, pneg(r), tuple((mm, x / 2) for mm, x in r), tuple((mm, -x / 2) for mm, x in r)):
                        if c in seen and c != o[1]:
                            t = seen[c]
                            for a, b, d in ((n, m, t), (n, t, m), (m, t, n)):
                                self.assume(self.OR(self.NOT(self.AND(a, b)), d))
        for o in list(self.atoms):
            if not (isinstance(o, tuple) and o and o[0] in ("gt", "ge", "eq")) or o == atom:
                continue
            m = self.mk(self.ids[o], 0, 1)
            if o[1] == p:
                if (k, o[0]) in (("gt", "ge"), ("eq", "ge")):
                    self.assume(self.OR(self.NOT(n), m))
                elif (k, o[0]) in (("ge", "gt"), ("ge", "eq")):
                    self.assume(self.OR(self.NOT(m), n))
                elif {k, o[0]} == {"gt", "eq"}:
                    self.assume(self.NOT(self.AND(n, m)))
            elif o[1] == q:
                if (k, o[0]) in (("eq", "ge"),):
                    self.assume(self.OR(self.NOT(n), m))
                elif (k, o[0]) in (("ge", "eq"),):
                    self.assume(self.OR(self.NOT(m), n))
                elif "gt" in (k, o[0]):
                    self.assume(self.NOT(self.AND(n, m)))
                elif k == o[0] == "ge":  # both: equal
                    e = self.var(("eq", max(p, q)))
                    self.assume(self.OR(self.NOT(self.AND(n, m)), e))

    def show(self, x, limit=6):
        """some cubes of the function"""
        out = []

        def rec(n, acc):
            if len(out) >= limit or n == 0:
                return
            if n == 1:
                out.append(" & ".join(acc) or "always")
                return
            v, lo, hi = self.nodes[n]
            rec(hi, acc + [show_atom(self.atoms[v])])
            rec(lo, acc + ["not " + show_atom(self.atoms[v])])

        rec(self.AND(x, 1), [])
        return " | ".join(out) or "never"


def show_atom(a):
    if isinstance(a, tuple) and len(a) == 2 and a[0] in ("gt", "ge", "eq"):
        return pshow(a[1]) + {"gt": " > 0", "ge": " >= 0", "eq": " == 0"}[a[0]]
    if isinstance(a, tuple) and len(a) == 3 and a[0] == "is":
        return f"{a[1]} is {a[2]}"
    return show_term(a)


def show_term(t):
    if isinstance(t, tuple) and t and isinstance(t[0], str):
        return t[0] + "(" + ", ".join(show_term(x) for x in t[1:]) + ")"
    return str(t)


# ------------------------------------------------------------------ polynomials (tuple of (monomial, coefficient))
def pconst(c):
    return (((), Fraction(c)),) if c else ()


def patom(a):
    return (((a,), Fraction(1)),)


def _norm(d):
    return tuple(sorted(((m, c) for m, c in d.items() if c), key=lambda t: repr(t[0])))


def padd(p, q, k=1):
    d = dict(p)
    for m, c in q:
        d[m] = d.get(m, 0) + k * c
    return _norm(d)


def pmul(p, q):
    d = {}
    for m, c in p:
        for n, e in q:
            k = tuple(sorted(m + n, key=repr))
            d[k] = d.get(k, 0) + c * e
    return _norm(d)


def pneg(p):
    return tuple((m, -c) for m, c in p)


def pcval(p):
    if not p:
        return Fraction(0)
    if len(p) == 1 and p[0][0] == ():
        return p[0][1]
    return None


def pshow(p):
    return " + ".join((str(c) if not m else ("" if c == 1 else f"{c}*") + "*".join(show_term(a) for a in m)) for m, c in p) or "0"


def pint(p):
    """integer valued for sure"""
    return all(c.denominator == 1 and all(isinstance(a, tuple) and a[0] in ("size", "int", "shape") for a in m) for m, c in p)


# ------------------------------------------------------------------ leaves
class Leaf:
    __slots__ = ()

    def key(self):
        return tuple([type(self).__name__] + [getattr(self, s) for s in self.__slots__])

    def __eq__(self, o):
        return type(self) is type(o) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return f"{type(self).__name__}{self.key()[1:]}"


def leaf(name, *slots):
    def init(self, *a):
        assert len(a) == len(slots), (name, a)
        for s, x in zip(slots, a):
            setattr(self, s, x)
    return type(name, (Leaf,), {"__slots__": slots, "__init__": init})


K = leaf("K", "v")            # constant (None, str, float, Ellipsis, slice bounds)
B = leaf("B", "g", "npy")     # boolean; npy: numpy.bool_
N = leaf("N", "p")            # number (polynomial)
Dt = leaf("Dt", "name")       # numpy dtype / scalar type
Tm = leaf("Tm", "t")          # opaque term
Seq = leaf("Seq", "kind", "items")        # tuple/list/set of gated values
Dic = leaf("Dic", "items")    # tuple of (key leaf, gated value)
Arr = leaf("Arr", "buf", "shape", "contig", "view")  # view of a buffer; contents are always in C order of the array; shape: tuple of numbers (polys)
Obj = leaf("Obj", "cls", "fields")        # fields: tuple of (name, value)
Fn = leaf("Fn", "ident")      # user function (index into table)
Bound = leaf("Bound", "ident", "self_")   # bound user method
Ext = leaf("Ext", "path")     # external (library) function, class or module by dotted path
Meth = leaf("Meth", "recv", "name")       # method of a modelled value
Cls = leaf("Cls", "ident")
Mod = leaf("Mod", "name")
Exc = leaf("Exc", "name")     # exception instance
Partial = leaf("Partial", "fn", "args", "kwargs")
Slice = leaf("Slice", "lo", "hi", "step")
Attr = leaf("Attr", "recv", "name")       # flags, memoryview, flat iterator ...
