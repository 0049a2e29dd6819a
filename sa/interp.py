"""Abstract interpreter for the Python subset pyodrx is written in.

The analysed program is read with `ast` and interpreted over gated values (see terms.py); it is never imported or
executed.  Every two-way branch is analysed once per side and the two abstract states are *joined* into one state whose
cells are gated values, so there is one state per program point and no enumeration of paths; no solver is involved.
Calls are resolved through the abstract heap and inlined.
"""
import ast
import os
from fractions import Fraction

from . import prelude
from . import terms as T
from .terms import (
    UNBOUND, Fn, Ite, Poly, Ref, SStr, StrOf, Sym, Tup, Undecided, b_and, b_not, b_or, ite, leaves, lift, num, padd,
    pdiv, pmul, pneg, poly, ppow, psub, same, show, sign_of, simp, sstr, vkey,
)

# --------------------------------------------------------------------------------------------------
# program-level values


class PyExc(Exception):
    """the analysed operation raises"""

    def __init__(self, cls, msg=""):
        self.cls, self.msg = cls, msg


class ExcLeaf:
    __slots__ = ("cls", "msg")

    def __init__(self, cls, msg):
        self.cls, self.msg = cls, msg

    def __eq__(self, o):
        return isinstance(o, ExcLeaf) and (o.cls, o.msg) == (self.cls, self.msg)

    def __hash__(self):
        return hash((self.cls, self.msg))

    def __repr__(self):
        return "raise %s(%s)" % (self.cls, self.msg)


class UndLeaf(ExcLeaf):
    pass


class Dead(Exception):
    """no abstract state reaches this point"""


class Ext:
    """something outside the analysed package, by dotted name"""

    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(("Ext", self.name))

    def __repr__(self):
        return "<%s>" % self.name


class Func:
    __slots__ = ("node", "closure", "mod", "name", "qual", "defaults", "kwdefaults", "info", "owner", "isgen", "file")

    def __repr__(self):
        return "<function %s>" % self.qual


class Bound:
    __slots__ = ("fn", "self_")

    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_

    def __eq__(self, o):
        return isinstance(o, Bound) and same(o.fn, self.fn) and same(o.self_, self.self_)

    def __hash__(self):
        return hash(("Bound", vkey(self.fn), vkey(self.self_)))

    def __repr__(self):
        return "%r.%r" % (self.self_, self.fn)


class Wrap:
    """staticmethod / classmethod / property / partial / cached wrapper"""

    __slots__ = ("kind", "args")

    def __init__(self, kind, args):
        self.kind, self.args = kind, tuple(args)

    def __eq__(self, o):
        return isinstance(o, Wrap) and o.kind == self.kind and len(o.args) == len(self.args) and all(same(x, y) for x, y in zip(o.args, self.args))

    def __hash__(self):
        return hash(("Wrap", self.kind) + tuple(vkey(a) for a in self.args))

    def __repr__(self):
        return "<%s %r>" % (self.kind, self.args)


class Bytes:
    """constant byte string"""

    __slots__ = ("b",)

    def __init__(self, b):
        self.b = b

    def __eq__(self, o):
        return isinstance(o, Bytes) and o.b == self.b

    def __hash__(self):
        return hash(("B", self.b))

    def __repr__(self):
        return repr(self.b)


class Slice:
    __slots__ = ("a", "b", "c")

    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c

    def __eq__(self, o):
        return isinstance(o, Slice) and all(same(x, y) for x, y in ((self.a, o.a), (self.b, o.b), (self.c, o.c)))

    def __hash__(self):
        return hash((vkey(self.a), vkey(self.b), vkey(self.c)))


class H:
    """heap cell; treated as immutable"""

    __slots__ = ("kind", "meta", "d", "items", "locs")

    def __init__(self, kind, meta=None, d=None, items=(), locs=None):
        self.kind, self.meta, self.d, self.items, self.locs = kind, meta, d if d is not None else {}, tuple(items), locs or {}

    def with_d(self, k, v, loc=None):
        d = dict(self.d)
        d[k] = v
        locs = self.locs
        if loc:
            locs = dict(locs)
            locs[k] = loc
        return H(self.kind, self.meta, d, self.items, locs)

    def with_items(self, items, locs=None):
        return H(self.kind, self.meta, self.d, items, locs if locs is not None else self.locs)


class AttrsOf:
    """marks a dictionary cell as the attributes of an object"""

    __slots__ = ("of",)

    def __init__(self, of):
        self.of = of


class St:
    __slots__ = ("pc", "heap")

    def __init__(self, pc, heap):
        self.pc, self.heap = pc, heap


class Ctx:
    """per-call bookkeeping of the interpreter"""

    __slots__ = ("fr", "rets", "loops", "fn", "modaddr", "consumer", "exc")

    def __init__(self, fr, fn, modaddr):
        self.fr, self.fn, self.modaddr = fr, fn, modaddr
        self.rets, self.loops, self.consumer, self.exc = [], [], None, []


EXC_BASES = {}


def _exc_tab():
    import builtins

    for n in dir(builtins):
        o = getattr(builtins, n)
        if isinstance(o, type) and issubclass(o, BaseException):
            EXC_BASES[n] = [c.__name__ for c in o.__mro__]


_exc_tab()


class Scope:
    __slots__ = ("locals", "globals", "nonlocals", "isgen")

    def __init__(self, node):
        self.locals, self.globals, self.nonlocals, self.isgen = set(), set(), set(), False
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            self.locals.add(x.arg)
        if a.vararg:
            self.locals.add(a.vararg.arg)
        if a.kwarg:
            self.locals.add(a.kwarg.arg)
        body = node.body if isinstance(node.body, list) else [ast.Expr(node.body)]
        for s in body:
            self.visit(s)
        self.locals -= self.globals | self.nonlocals

    def visit(self, n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            self.locals.add(n.name)
            for d in n.decorator_list:
                self.visit(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    self.locals.add(x.target.id)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            self.locals.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                self.locals.add((al.asname or al.name).split(".")[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            self.locals.add(n.name)
        elif isinstance(n, ast.Global):
            self.globals.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            self.nonlocals.update(n.names)
        elif isinstance(n, (ast.Yield, ast.YieldFrom)):
            self.isgen = True
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            self.locals.add(n.name)
        for c in ast.iter_child_nodes(n):
            self.visit(c)


# --------------------------------------------------------------------------------------------------
# predicates with theory


class Theory:
    """exclusivity and ordering facts between branch predicates of one linear family"""

    def __init__(self):
        self.ax = True
        self.fam = {}

    def var(self, *key):
        i, new = T.atom_index(key)
        v = T.mk(i, True, False)
        return v, new

    def canon(self, p):
        """(flip, p') with p' having positive leading coefficient 1"""
        k = p.t[0][1] if p.t[0][0] != () else (p.t[1][1] if len(p.t) > 1 else p.t[0][1])
        return k < 0, T.pscale(p, 1 / k)

    def _add(self, kind, p):
        v, new = self.var(kind, p)
        if new:
            c = dict(p.t).get((), Fraction(0))
            key = psub(p, poly(c))
            fam = self.fam.setdefault(key, {})
            for (k2, c2), w in list(fam.items()):
                self._rel(kind, c, v, k2, c2, w)
            fam[(kind, c)] = v
        return v

    def _rel(self, k1, c1, v, k2, c2, w):
        # eq: q = -c ; lt: q < -c   (q the non-constant part)
        b1, b2 = -c1, -c2
        no = lambda a, b: self._assume(b_not(b_and(a, b)))
        imp = lambda a, b: self._assume(T.b_imp(a, b))
        if k1 == "eq" and k2 == "eq":
            if b1 != b2:
                no(v, w)
        elif k1 == "lt" and k2 == "lt":
            if b1 < b2:
                imp(v, w)
            elif b1 > b2:
                imp(w, v)
        else:
            if k1 == "lt":
                b1, b2, v, w = b2, b1, w, v  # now v: q = b1, w: q < b2
            if b1 < b2:
                imp(v, w)
            else:
                no(v, w)

    def _assume(self, c):
        self.ax = b_and(self.ax, c)

    def eq0(self, p):
        c = p.const()
        if c is not None:
            return c == 0
        s = sign_of(p)
        if s in ("+", "-", "nz"):
            return False
        _, p, _ = T.content(p, "nz")
        c = p.const()
        if c is not None:
            return c == 0
        _, q = self.canon(p)
        return self._add("eq", q)

    def lt0(self, p):
        c = p.const()
        if c is not None:
            return c < 0
        s = sign_of(p)
        if s in ("+", "-"):
            return s == "-"
        m, p, g = T.content(p, "sgn")
        if g < 0:
            p = T.pneg(p)
        if m:
            return self.lt0(p)
        f, q = self.canon(p)
        lt = self._add("lt", q)
        if not f:
            return lt
        if s == "nz":
            return b_not(lt)
        return b_and(b_not(lt), b_not(self._add("eq", q)))

    def pred(self, *key):
        v, new = self.var(*key)
        if key[0] in ("eqs", "eqv") and len(key) == 3:
            self._link(key[0], key[1], key[2], v)
        return v

    def _link(self, kind, x, y, v):
        """equality of values is transitive, and different constants are different"""
        const = lambda c: isinstance(c, (str, int, Fraction))
        g = self.fam.setdefault((kind,), {})
        kx, ky = vkey(x), vkey(y)
        if kx == ky or ky in g.get(kx, ()):
            return
        for k, q, w in ((kx, x, y), (ky, y, x)):
            for z, (zv, e) in g.get(k, {}).items():  # v: x = y, e: q = z; what of w = z
                if const(w) and const(zv):
                    if w != zv:
                        self._assume(b_not(b_and(v, e)))
                else:
                    o = g.get(vkey(w), {}).get(z)
                    if o is not None:
                        for a, b, c in ((v, e, o[1]), (v, o[1], e), (e, o[1], v)):
                            self._assume(T.b_imp(b_and(a, b), c))
        g.setdefault(kx, {})[ky] = (y, v)
        g.setdefault(ky, {})[kx] = (x, v)


def is_num(x):
    return isinstance(x, (bool, int, Fraction, Poly))


def is_text(x):
    return isinstance(x, (str, SStr))


def tstr(x):
    """text of a leaf that needs no call"""
    if isinstance(x, str) or isinstance(x, SStr):
        return x
    if x is None or isinstance(x, bool):
        return str(x)
    if isinstance(x, int):
        return str(x)
    if isinstance(x, (Fraction, Poly)):
        return SStr([StrOf(x)])
    if isinstance(x, Sym):
        return SStr([x]) if x.kind == "str" else SStr([StrOf(x)])
    if isinstance(x, Ext):
        return "<%s>" % x.name
    if isinstance(x, Bytes):
        return repr(x.b)
    if isinstance(x, Fn):
        return SStr([StrOf(x)])
    if isinstance(x, Tup):
        parts = ["("]
        for k, i in enumerate(x.items):
            if k:
                parts.append(", ")
            parts.append(trepr(i) if not isinstance(i, Ite) else StrOf(i))
        parts.append(",)" if len(x.items) == 1 else ")")
        return sstr(parts)
    raise Undecided("text of %r" % (x,))


def trepr(x):
    if isinstance(x, str):
        return repr(x)
    if isinstance(x, SStr):
        return sstr(["'", x, "'"])
    return tstr(x)


BIN = {
    ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
    ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.MatMult: "@", ast.LShift: "<<", ast.RShift: ">>",
}
DUNDER = {"+": "add", "-": "sub", "*": "mul", "/": "truediv", "//": "floordiv", "%": "mod", "**": "pow", "&": "and", "|": "or", "^": "xor", "@": "matmul", "<<": "lshift", ">>": "rshift"}

INTSYMS = set()


def is_int_poly(p):
    for m, c in p.t:
        if c.denominator != 1:
            return False
        for a, e in m:
            if a.kind != "sym" or a.args[0] not in INTSYMS or e.denominator != 1 or e < 0:
                return False
    return True


def num_bin(op, a, b):
    if isinstance(a, bool):
        a = int(a)
    if isinstance(b, bool):
        b = int(b)
    if op in ("&", "|", "^", "<<", ">>"):
        if isinstance(a, int) and isinstance(b, int):
            return {"&": a & b, "|": a | b, "^": a ^ b}[op] if op in "&|^" else (a << b if op == "<<" else a >> b)
        raise Undecided("bit operation on unknown numbers")
    if op in ("//", "%"):
        pb = poly(b)
        if pb.const() == 0:
            raise PyExc("ZeroDivisionError", "division by zero")
        pa = poly(a)
        if pa.const() is not None and pb.const() is not None:
            q = pa.const() // pb.const()
            return T._norm(Fraction(q)) if op == "//" else T._norm(pa.const() - q * pb.const())
        if op == "%":
            return num(T.pfn("mod", pa, pb))
        return num(T.pfn("floor", pdiv(pa, pb)))
    pa, pb = poly(a), poly(b)
    if op == "+":
        return num(padd(pa, pb))
    if op == "-":
        return num(psub(pa, pb))
    if op == "*":
        return num(pmul(pa, pb))
    if op == "/":
        if pb.const() == 0:
            raise PyExc("ZeroDivisionError", "division by zero")
        return num(pdiv(pa, pb))
    if op == "**":
        c = pb.const()
        if c is None:
            raise Undecided("symbolic exponent")
        if pa.const() == 0 and c < 0:
            raise PyExc("ZeroDivisionError", "0.0 cannot be raised to a negative power")
        if c.denominator != 1 and pa.const() is None and sign_of(pa) is None and c.denominator == 2:
            # sqrt of a square
            r = perfect_root(pa)
            if r is not None:
                return num(ppow(r, c * 2))
        return num(ppow(pa, c))
    raise Undecided("operator " + op)


def perfect_root(p):
    """|q| when p == q*q for a monomial q with unknown sign"""
    if len(p.t) == 1 and all(e.denominator == 1 and int(e) % 2 == 0 for _, e in p.t[0][0]) and p.t[0][1] > 0:
        m, c = p.t[0]
        q = Poly({tuple((a, e / 2) for a, e in m): Fraction(1)})
        return pmul(T.pabs(q), ppow(poly(c), Fraction(1, 2)))
    return None


class Loc:
    __slots__ = ("file", "line", "func")

    def __init__(self, file, line, func):
        self.file, self.line, self.func = file, line, func

    def __repr__(self):
        return "%s:%d (%s)" % (self.file, self.line, self.func)


class Interp:
    MAXDEPTH = 60
    MAXWHILE = 60
    prelude_tree = None

    def __init__(self, root, package="pyodrx", budget=6_000_000):
        self.root, self.package = root, package
        self.th = Theory()
        self.base = {}
        self.next_addr = 1
        self.st = St(True, {})
        self.mods = {}
        self.ctx = []
        self.sinks = []
        self.captured = set()
        self.line = 0
        self.analysed = {}
        self.calls = set()
        self.joins = 0
        self.steps = 0
        self.budget = budget
        self.unraised = []
        self.snaps = []
        self.set_rev = False
        self.files = {}
        self.fresh_n = 0
        self.scopes = {}
        self.overflow = None
        from . import models

        self.models = models.build(self)
        self.builtins = models.BUILTIN_NAMES
        self.effects = self.alloc(H("list"))
        self.raised_log = []

    # ------------------------------------------------------------------ heap
    def alloc(self, h):
        a = self.next_addr
        self.next_addr += 1
        self.st.heap[a] = h
        return Ref(a)

    def get(self, ref):
        a = ref.a
        h = self.st.heap.get(a)
        if h is None:
            h = self.base[a]
        if type(h.meta) is AttrsOf:
            return self.attrs_get(h)
        return h

    def put(self, ref, h):
        if type(h.meta) is AttrsOf:
            return self.attrs_put(h)
        self.st.heap[ref.a] = h

    def attrs_get(self, h):
        """the attributes of an object as a dictionary: x.__dict__ and the object are one thing"""
        out = []
        for k, v in self.get(h.meta.of).d.items():
            v = self.s(v)
            if type(v) is Ite and any(l is UNBOUND for _, l in leaves(v)):
                out.append((k, self.s(b_not(lift(lambda y: y is UNBOUND, v))), v))
            elif v is not UNBOUND:
                out.append((k, True, v))
        return H("dict", h.meta, None, out)

    def attrs_put(self, h):
        o = self.get(h.meta.of)
        if o.kind == "cls":
            self.raise_exc("TypeError", "'mappingproxy' object does not support item assignment")
        d = {}
        for k, g, v in h.items:
            if not isinstance(k, str):
                raise Undecided("__dict__ with an unknown name")
            d[k] = v if g is True else ite(g, v, d.get(k, UNBOUND))
        loc = self.loc()
        locs = {k: o.locs.get(k, loc) if k in o.d and (d[k] is o.d[k] or same(d[k], o.d[k])) else loc for k in d}
        self.put(h.meta.of, H(o.kind, o.meta, d, o.items, locs))

    def freeze(self):
        """make the current heap the shared base"""
        self.base.update(self.st.heap)
        self.st = St(True, {})

    def loc(self):
        c = self.ctx[-1] if self.ctx else None
        f = c.fn.file if c and c.fn else (self.modfile(c.modaddr) if c else "?")
        return Loc(f, self.line, c.fn.qual if c and c.fn else "<module>")

    def modfile(self, addr):
        for name, r in self.mods.items():
            if r.a == addr:
                return self.files.get(name, name)
        return "?"

    def feasible(self, pc):
        return pc is not False and b_and(pc, self.th.ax) is not False

    def care(self):
        return b_and(self.st.pc, self.th.ax)

    def s(self, v):
        return simp(v, self.care()) if type(v) is Ite else v

    def tick(self):
        self.steps += 1
        if self.steps > self.budget:
            raise Undecided("analysis budget exhausted")

    # ------------------------------------------------------------------ joins
    def merge2(self, s1, v1, s2, v2):
        self.joins += 1
        pc = b_or(s1.pc, s2.pc)
        care = b_and(pc, self.th.ax)
        c = simp(s1.pc, care)
        if c is True:
            return s1, v1
        if c is False:
            return s2, v2
        heap = {}
        h1, h2 = s1.heap, s2.heap
        for a in h1.keys() | h2.keys():
            x, y = h1.get(a), h2.get(a)
            if x is None:
                x = self.base.get(a)
            if y is None:
                y = self.base.get(a)
            if x is y or y is None:
                heap[a] = x
            elif x is None:
                heap[a] = y
            else:
                heap[a] = self.merge_h(c, x, y, care)
        return St(pc, heap), self.merge_v(c, v1, v2, care)

    def merge_v(self, c, a, b, care):
        if same(a, b):
            return a
        return simp(ite(c, a, b), care)

    def merge_h(self, c, x, y, care):
        if x.kind != y.kind or not same(x.meta, y.meta) and x.meta != y.meta:
            raise Undecided("cannot join heap cells of kind %s/%s" % (x.kind, y.kind))
        if x.d is y.d:
            d = x.d
        else:
            d = {}
            for k in list(x.d) + [k for k in y.d if k not in x.d]:
                d[k] = self.merge_v(c, x.d.get(k, UNBOUND), y.d.get(k, UNBOUND), care)
        if x.items is y.items:
            items = x.items
        elif x.kind in ("dict", "set"):
            items = self.merge_entries(c, x.items, y.items, care)
        else:
            items = []
            n = max(len(x.items), len(y.items))
            for i in range(n):
                g1, v1 = x.items[i] if i < len(x.items) else (False, UNBOUND)
                g2, v2 = y.items[i] if i < len(y.items) else (False, UNBOUND)
                g = self.merge_v(c, g1, g2, care)
                if g is False:
                    continue
                if v1 is UNBOUND:
                    v = v2
                elif v2 is UNBOUND:
                    v = v1
                else:
                    v = simp(ite(c, v1, v2), b_and(care, g)) if not same(v1, v2) else v1
                items.append((g, v))
        locs = x.locs if x.locs is y.locs else {**y.locs, **x.locs}
        return H(x.kind, x.meta, d, items, locs)

    def merge_entries(self, c, xs, ys, care):
        kx = [vkey(e[0]) for e in xs]
        ky = [vkey(e[0]) for e in ys]
        nc = b_not(c)
        common = [k for k in kx if k in set(ky)]
        if len(set(kx)) == len(kx) and len(set(ky)) == len(ky) and [k for k in ky if k in set(kx)] == common:
            # same relative order: interleave
            out = []
            i = j = 0
            sx = set(kx)
            sy = set(ky)
            while i < len(xs) or j < len(ys):
                if i < len(xs) and kx[i] not in sy:
                    e = xs[i]
                    out.append((e[0], simp(b_and(c, e[1]), care), e[2]))
                    i += 1
                elif j < len(ys) and ky[j] not in sx:
                    e = ys[j]
                    out.append((e[0], simp(b_and(nc, e[1]), care), e[2]))
                    j += 1
                else:
                    e, f = xs[i], ys[j]
                    g = self.merge_v(c, e[1], f[1], care)
                    out.append((e[0], g, e[2] if same(e[2], f[2]) else simp(ite(c, e[2], f[2]), b_and(care, g))))
                    i += 1
                    j += 1
            return tuple(e for e in out if e[1] is not False)
        out = [(k, simp(b_and(c, g), care), v) for k, g, v in xs] + [(k, simp(b_and(nc, g), care), v) for k, g, v in ys]
        return tuple(e for e in out if e[1] is not False)

    def merge_all(self, outs):
        """outs: list of (St, value) -> sets self.st, returns value; Dead when empty"""
        if not outs:
            raise Dead
        s, v = outs[0]
        for s2, v2 in outs[1:]:
            s, v = self.merge2(s, v, s2, v2)
        self.st = s
        return v

    def branch(self, c, ft, ff):
        c = self.s(c)
        if c is True:
            return ft()
        if c is False:
            return ff()
        st0 = self.st
        outs = []
        for cond, f in ((c, ft), (b_not(c), ff)):
            pc = b_and(st0.pc, cond)
            if not self.feasible(pc):
                continue
            self.st = St(pc, dict(st0.heap))
            try:
                v = f()
                outs.append((self.st, v))
            except Dead:
                pass
        return self.merge_all(outs)

    def case(self, v, f):
        """apply f to each leaf of v under the leaf's condition and join"""
        v = self.s(v)
        if type(v) is not Ite:
            return f(v)
        st0 = self.st
        outs = []
        for cond, leaf in leaves(v, b_and(st0.pc, self.th.ax)):
            pc = b_and(st0.pc, cond)
            if not self.feasible(pc):
                continue
            self.st = St(pc, dict(st0.heap))
            try:
                r = f(leaf)
                outs.append((self.st, r))
            except Dead:
                pass
        return self.merge_all(outs)

    def cases(self, vs, f):
        """case over several values at once"""
        vs = list(vs)

        def go(i, acc):
            if i == len(vs):
                return f(*acc)
            return self.case(vs[i], lambda leaf: go(i + 1, acc + [leaf]))

        return go(0, [])

    def raise_exc(self, cls, msg=""):
        """the analysed program raises builtin exception cls"""
        ref = self.alloc(H("obj", Ext("builtins." + cls), {"args": Tup([msg])}))
        self.do_raise(ref)

    def do_raise(self, v):
        self.raised_log.append((self.loc(), self.st.pc, v))
        self.sinks[-1].append((self.st, v))
        raise Dead

    def settle(self, r):
        """turn exceptional leaves of r into raises"""
        r = self.s(r)
        if type(r) is not Ite:
            if isinstance(r, UndLeaf):
                raise Undecided(r.msg)
            if isinstance(r, ExcLeaf):
                self.raise_exc(r.cls, r.msg)
            return r
        bad = lift(lambda x: isinstance(x, ExcLeaf), r)
        bad = self.s(bad)
        if bad is False:
            return r

        def onbad():
            def one(x):
                if isinstance(x, UndLeaf):
                    raise Undecided(x.msg)
                self.raise_exc(x.cls, x.msg)

            return self.case(r, one)

        return self.branch(bad, onbad, lambda: self.s(r))

    def pure(self, f, *args):
        args = [self.s(a) for a in args]

        def g(*xs):
            try:
                return f(*xs)
            except PyExc as e:
                return ExcLeaf(e.cls, e.msg)
            except ZeroDivisionError:
                return ExcLeaf("ZeroDivisionError", "division by zero")
            except Undecided as e:
                return UndLeaf("undecided", str(e))

        if not any(type(a) is Ite for a in args):
            return self.settle(g(*args))
        return self.settle(lift(g, *args))

    def fresh(self, hint, kind="any"):
        self.fresh_n += 1
        return Sym("%s#%d" % (hint, self.fresh_n), kind)

    # ------------------------------------------------------------------ modules
    def load_package(self):
        pkgdir = os.path.join(self.root, self.package)
        names = sorted(f[:-3] for f in os.listdir(pkgdir) if f.endswith(".py"))
        if "__init__" not in names:
            raise Undecided("package %s not found" % self.package)
        self.sources = {}
        for n in names:
            p = os.path.join(pkgdir, n + ".py")
            with open(p, encoding="utf-8") as fh:
                src = fh.read()
            self.sources[n] = (p, src, ast.parse(src, p))
        self.sinks.append([])
        self.import_module(self.package)
        for n in names:
            if n != "__init__":
                self.import_module(self.package + "." + n)
        if self.sinks.pop():
            raise Undecided("importing the package may raise")
        self.freeze()

    def import_module(self, dotted):
        if dotted in self.mods:
            return self.mods[dotted]
        if dotted == self.package:
            key = "__init__"
        elif dotted.startswith(self.package + "."):
            key = dotted[len(self.package) + 1:]
        else:
            return Ext(dotted)
        if key not in self.sources:
            self.raise_exc("ModuleNotFoundError", dotted)
        path, src, tree = self.sources[key]
        ref = self.alloc(H("mod", dotted, {"__name__": dotted, "__file__": path}))
        self.mods[dotted] = ref
        self.files[dotted] = os.path.relpath(path, self.root)
        self.run_module(ref, tree)
        # bind submodule in the parent
        if "." in dotted:
            par = self.mods.get(dotted.rsplit(".", 1)[0])
            if par is not None:
                self.put(par, self.get(par).with_d(dotted.rsplit(".", 1)[1], ref))
        return ref

    def ext(self, name):
        """something of the standard library: the name itself, or what the prelude defines for it"""
        n = prelude.MAP.get(name)
        if n is None:
            return Ext(name)
        ref = self.mods.get("<prelude>")
        if ref is None or ref.a not in self.st.heap:
            if self.prelude_tree is None:
                Interp.prelude_tree = ast.parse(prelude.SOURCE)
            ref = self.alloc(H("mod", "<prelude>", {"__name__": "<prelude>", "__undecided__": Ext("sa.undecided"), "__ctxmgr__": Ext("sa.ctxmgr")}))
            self.mods["<prelude>"] = ref
            self.files["<prelude>"] = "<standard library>"
            self.run_module(ref, self.prelude_tree)
        return self.get(ref).d[n]

    def run_module(self, ref, tree):
        line = self.line
        c = Ctx(ref, None, ref.a)
        self.ctx.append(c)
        try:
            self.block(tree.body)
        finally:
            self.ctx.pop()
            self.line = line

    # ------------------------------------------------------------------ running scenario code
    def run(self, code, binds=None, name="scenario"):
        """interpret driver code; returns a Run"""
        self.budget = self.steps + 3_000_000
        self.raised_log = []
        st_keep = self.st
        self.st = St(True, {})
        tree = ast.parse(code)
        mod = self.alloc(H("mod", "__scenario__", {"__name__": "__scenario__", **(binds or {})}))
        self.mods["__scenario__"] = mod
        self.files["__scenario__"] = "<%s>" % name
        sink = []
        self.sinks.append(sink)
        end = None
        n_ctx, n_sink = len(self.ctx), len(self.sinks)
        try:
            self.run_module(mod, tree)
            end = self.st
        except Dead:
            end = None
        finally:
            del self.ctx[n_ctx:]
            del self.sinks[n_sink - 1:]
            self.st = st_keep
        return Run(self, mod, end, sink)

    # ------------------------------------------------------------------ statements
    def block(self, stmts):
        for s in stmts:
            self.stmt(s)

    def stmt(self, n):
        self.line = n.lineno
        self.tick()
        m = getattr(self, "st_" + type(n).__name__, None)
        if m is None:
            raise Undecided("statement %s at %r" % (type(n).__name__, self.loc()))
        m(n)

    def st_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        self.ev(n.value)

    def st_Pass(self, n):
        pass

    def st_Global(self, n):
        pass

    st_Nonlocal = st_Global

    def st_Assign(self, n):
        v = self.ev(n.value)
        for t in n.targets:
            self.assign(t, v)

    def st_AnnAssign(self, n):
        if isinstance(n.target, ast.Name):
            fr = self.ctx[-1].fr
            h = self.get(fr)
            if h.kind == "frame" and h.meta[2] == "class":
                ann = h.d.get("__annotations_order__", Tup(()))
                self.put(fr, h.with_d("__annotations_order__", Tup(ann.items + (n.target.id,))))
        if n.value is not None:
            self.assign(n.target, self.ev(n.value))

    def st_AugAssign(self, n):
        op = BIN[type(n.op)]
        t = n.target
        if isinstance(t, ast.Name):
            cur = self.load_name(t.id)
            self.assign(t, self.inplace(op, cur, self.ev(n.value)))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.inplace(op, cur, self.ev(n.value)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            k = self.ev_index(t.slice)
            cur = self.getitem(o, k)
            self.setitem(o, k, self.inplace(op, cur, self.ev(n.value)))
        else:
            raise Undecided("augmented assignment")

    def inplace(self, op, a, b):
        def one(x):
            if isinstance(x, Ref) and self.get(x).kind == "list" and op == "+":
                self.list_extend(x, b)
                return x
            if isinstance(x, Ref) and self.get(x).kind in ("set",) and op == "|":
                self.models["set.update"](self, [x, b], {})
                return x
            return self.binop(op, x, b)

        if type(self.s(a)) is Ite and any(isinstance(l, Ref) for _, l in leaves(a)):
            return self.case(a, one)
        if isinstance(self.s(a), Ref):
            return one(self.s(a))
        return self.binop(op, a, b)

    def st_Delete(self, n):
        for t in n.targets:
            if isinstance(t, ast.Name):
                fr = self.scope_of(t.id)
                h = self.get(fr)
                d = dict(h.d)
                d.pop(t.id, None)
                self.put(fr, H(h.kind, h.meta, d, h.items, h.locs))
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value)
                k = self.ev_index(t.slice)
                self.cases([o, k], self.delitem)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value)

                def one(x):
                    h = self.get(x)
                    if t.attr not in h.d:
                        self.raise_exc("AttributeError", t.attr)
                    d = dict(h.d)
                    d.pop(t.attr)
                    self.put(x, H(h.kind, h.meta, d, h.items, h.locs))

                self.case(o, one)

    def st_Return(self, n):
        v = self.ev(n.value) if n.value is not None else None
        self.ctx[-1].rets.append((self.st, v))
        raise Dead

    def st_Break(self, n):
        self.ctx[-1].loops[-1][0].append((self.st, None))
        raise Dead

    def st_Continue(self, n):
        self.ctx[-1].loops[-1][1].append((self.st, None))
        raise Dead

    def st_If(self, n):
        c = self.truth(self.ev(n.test))
        self.branch(c, lambda: self.block(n.body), lambda: self.block(n.orelse))

    def st_Assert(self, n):
        c = self.truth(self.ev(n.test))

        def bad():
            m = self.ev(n.msg) if n.msg is not None else None
            self.do_raise(self.alloc(H("obj", Ext("builtins.AssertionError"), {"args": Tup([m] if n.msg is not None else [])})))

        self.branch(c, lambda: None, bad)

    def st_Raise(self, n):
        if n.exc is None:
            if not self.ctx[-1].exc:
                self.raise_exc("RuntimeError", "No active exception to re-raise")
            self.do_raise(self.ctx[-1].exc[-1])
        v = self.ev(n.exc)
        cause = self.ev(n.cause) if n.cause is not None else None

        def one(x):
            if self.is_class(x):
                x = self.call(x, [], {})
            if n.cause is not None and isinstance(x, Ref):
                self.put(x, self.get(x).with_d("__cause__", cause))
            self.do_raise(x)

        self.case(v, one)

    def loop_body(self, body):
        """run a loop body once; afterwards the state is the join of fall-through and continue"""
        ctx = self.ctx[-1]
        brk, cont = ctx.loops[-1]
        cont.clear()
        outs = []
        try:
            self.block(body)
            outs.append((self.st, None))
        except Dead:
            pass
        outs += list(cont)
        cont.clear()
        self.merge_all(outs)

    def st_For(self, n):
        it = self.ev(n.iter)
        ctx = self.ctx[-1]
        brk = []
        ctx.loops.append((brk, []))
        depth = len(ctx.loops)
        outs = []

        def go(value):
            self.assign(n.target, value)
            self.loop_body(n.body)

        try:
            self.each(it, go, n.iter)
            self.block_else(n, ctx, depth)
            outs.append((self.st, None))
        except Dead:
            del ctx.loops[depth - 1:]
        outs += brk
        self.merge_all(outs)

    def each(self, it, go, expr=None):
        """call go with every element in turn; generators run in step with it"""
        it = self.s(it)
        if isinstance(it, Ref) and self.get(it).kind == "gen":
            return self.consume(it, go)
        for guard, value in self.iterate(it, isinstance(expr, (ast.Call, ast.GeneratorExp))):
            self.branch(guard, lambda value=value: go(value), lambda: None)

    # ------------------------------------------------------------------ generators
    def new_gen(self, run):
        """an iterator that calls run(consumer) when its elements are asked for"""
        return self.alloc(H("gen", run, {"spent": False, "done": False}))

    def consume(self, ref, go, outside=True):
        """run a generator; go(value) is executed at every yield, as part of the code that consumes it
        (outside: what go raises does not pass through the generator)"""
        h = self.get(ref)
        spent, done = self.s(h.d["spent"]), self.s(h.d["done"])
        if done is True:
            return None
        if spent is not False:
            raise Undecided("generator used again after part of it was consumed")
        self.put(ref, h.with_d("spent", True))
        nctx, nsink = len(self.ctx), len(self.sinks)

        def consumer(value):
            up, self.ctx[nctx:] = self.ctx[nctx:], []
            if outside:
                sinks, self.sinks[nsink:] = self.sinks[nsink:], []
            try:
                return go(value)
            finally:
                self.ctx[nctx:] = up
                if outside:
                    self.sinks[nsink:] = sinks

        r = h.meta(consumer)
        self.put(ref, self.get(ref).with_d("done", True))
        return r

    def force(self, ref):
        """a generator replaced by the iterator over all of its elements"""
        h = self.get(ref)
        if h.kind != "gen":
            return ref
        if self.s(h.d["done"]) is True:
            self.put(ref, H("list", "iter"))
            return ref
        r = self.alloc(H("list", "iter"))
        self.consume(ref, lambda v: self.list_append(r, v))
        self.put(ref, H("list", "iter", None, self.get(r).items))
        return ref

    def force_quietly(self, ref):
        """force, unless running the generator to its end could be noticed; says whether it was done"""
        st0, n0 = self.st, [len(x) for x in self.sinks]
        before = dict(st0.heap)
        self.st = St(st0.pc, dict(st0.heap))
        ok = True
        try:
            self.force(ref)
        except Dead:
            ok = False
        except Undecided:
            ok = False
        if ok and [len(x) for x in self.sinks] == n0:
            h = self.st.heap
            if self.st.pc == st0.pc and all(h.get(a) is c or a == ref.a or c.kind == "frame" and c.meta[2] == "comp" for a, c in before.items()) and all(a in before or self.base.get(a) is None for a in h if a != ref.a):
                return True
        for x, k in zip(self.sinks, n0):
            del x[k:]
        self.st = st0
        return False

    def first(self, ref, test, default):
        """run a generator until test(value) gives a result: test returns (condition, result)"""
        outs = []

        def go(v):
            c, r = test(v)

            def stop():
                outs.append((self.st, r))
                raise Dead

            self.branch(c, stop, lambda: None)

        try:
            self.consume(ref, go)
            outs.append((self.st, default()))
        except Dead:
            pass
        return self.merge_all(outs)

    def block_else(self, n, ctx, depth):
        del ctx.loops[depth - 1:]
        if n.orelse:
            self.block(n.orelse)

    def same_heap(self, a, b):
        """do all cells of heap a have the same contents in b?"""
        for r, h in a.items():
            g = b.get(r)
            if g is h:
                continue
            if g is None or g.kind != h.kind or not same(g.meta, h.meta) and g.meta is not h.meta:
                return False
            if g.d is not h.d:
                if len(g.d) != len(h.d) or any(k not in g.d or not (g.d[k] is v or same(g.d[k], v)) for k, v in h.d.items()):
                    return False
            if len(g.items) != len(h.items):
                return False
            for x, y in zip(g.items, h.items):
                if x is not y and (len(x) != len(y) or any(not (p is q or same(p, q)) for p, q in zip(x, y))):
                    return False
        return True

    def st_While(self, n):
        ctx = self.ctx[-1]
        brk = []
        ctx.loops.append((brk, []))
        depth = len(ctx.loops)
        done = []
        outs = []
        head = None
        try:
            k = 0
            while True:
                c = self.s(self.truth(self.ev(n.test)))
                if c is not True:
                    st0 = self.st
                    pcx = b_and(st0.pc, b_not(c))
                    if self.feasible(pcx):
                        done.append((St(pcx, dict(st0.heap)), None))
                    pcb = b_and(st0.pc, c)
                    if not self.feasible(pcb):
                        break
                    self.st = St(pcb, dict(st0.heap))
                k += 1
                if k > 6:
                    # the same state at the loop head twice: the loop repeats forever
                    if head is not None and head.pc == self.st.pc and self.same_heap(head.heap, self.st.heap):
                        raise T.Diverges(self.loc(), self.st.pc)
                    head = St(self.st.pc, dict(self.st.heap))
                if k > self.MAXWHILE:
                    if self.overflow is not None:
                        self.overflow.append((self.loc(), self.st.pc, n.lineno))
                        break
                    raise Undecided("loop at %r not bounded within %d iterations" % (self.loc(), self.MAXWHILE))
                self.loop_body(n.body)
        except Dead:
            pass
        del ctx.loops[depth - 1:]
        if done:
            try:
                self.merge_all(done)
                if n.orelse:
                    self.block(n.orelse)
                outs.append((self.st, None))
            except Dead:
                pass
        outs += brk
        self.merge_all(outs)

    def st_Try(self, n):
        ctx = self.ctx[-1]
        if n.finalbody:
            saved_rets = ctx.rets
            saved_loop = ctx.loops[-1] if ctx.loops else None
            ctx.rets = []
            if saved_loop:
                ctx.loops[-1] = ([], [])
            sink = []
            self.sinks.append(sink)
            normal = []
            nl = len(ctx.loops)
            try:
                self.try_core(n)
                normal.append((self.st, None))
            except Dead:
                pass
            self.sinks.pop()
            del ctx.loops[nl:]
            rets, ctx.rets = ctx.rets, saved_rets
            brk = cont = []
            if saved_loop:
                brk, cont = ctx.loops[-1]
                ctx.loops[-1] = saved_loop
            outs = []

            def fin(group, after):
                for st, v in group:
                    self.st = st
                    try:
                        self.block(n.finalbody)
                        after(v)
                    except Dead:
                        pass

            fin(normal, lambda v: outs.append((self.st, None)))
            fin(rets, lambda v: ctx.rets.append((self.st, v)))
            fin(sink, lambda v: self.sinks[-1].append((self.st, v)))
            if saved_loop:
                fin(brk, lambda v: saved_loop[0].append((self.st, v)))
                fin(cont, lambda v: saved_loop[1].append((self.st, v)))
            self.merge_all(outs)
        else:
            self.try_core(n)

    st_TryStar = None

    def try_core(self, n):
        if not n.handlers:
            self.block(n.body)
            if n.orelse:
                self.block(n.orelse)
            return
        ctx = self.ctx[-1]
        sink = []
        self.sinks.append(sink)
        ns = len(self.sinks)
        outs = []
        alive = False
        try:
            self.block(n.body)
            alive = True
        except Dead:
            pass
        finally:
            del self.sinks[ns - 1:]
        if alive:
            try:
                if n.orelse:
                    self.block(n.orelse)
                outs.append((self.st, None))
            except Dead:
                pass
        if sink:
            try:
                exc = self.merge_all(sink)
                self.handle(n, 0, exc)
                outs.append((self.st, None))
            except Dead:
                pass
        self.merge_all(outs)

    def handle(self, n, i, exc):
        if i == len(n.handlers):
            self.sinks[-1].append((self.st, exc))
            raise Dead
        h = n.handlers[i]
        if h.type is None:
            c = True
        else:
            t = self.ev(h.type)
            c = self.pure(lambda x, ty: self.exc_match(x, ty), exc, t)

        def yes():
            e = self.s(exc)
            if h.name:
                self.store_name(h.name, e)
            self.ctx[-1].exc.append(e)
            try:
                self.block(h.body)
            finally:
                self.ctx[-1].exc.pop()

        self.branch(c, yes, lambda: self.handle(n, i + 1, exc))

    def exc_match(self, x, ty):
        if isinstance(ty, Tup):
            return any(self.exc_match(x, t) for t in ty.items)
        return self.isinstance_leaf(x, ty)

    def st_With(self, n, i=0):
        if i == len(n.items):
            self.block(n.body)
            return
        item = n.items[i]
        mgr = self.ev(item.context_expr)

        def one(m):
            if isinstance(m, Ref) and self.get(m).kind == "ctxmgr":
                self.with_generator(n, i, self.get(m).meta)
                return
            v = self.call(self.getattr(m, "__enter__"), [], {})
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v)
            # body in try/finally style
            ctx = self.ctx[-1]
            saved_rets = ctx.rets
            saved_loop = ctx.loops[-1] if ctx.loops else None
            ctx.rets = []
            if saved_loop:
                ctx.loops[-1] = ([], [])
            sink = []
            self.sinks.append(sink)
            normal = []
            nl = len(ctx.loops)
            try:
                self.st_With(n, i + 1)
                normal.append((self.st, None))
            except Dead:
                pass
            self.sinks.pop()
            del ctx.loops[nl:]
            rets, ctx.rets = ctx.rets, saved_rets
            brk = cont = []
            if saved_loop:
                brk, cont = ctx.loops[-1]
                ctx.loops[-1] = saved_loop
            outs = []

            def fin(group, after, exc=False):
                for st, v in group:
                    self.st = st
                    try:
                        r = self.call(self.getattr(m, "__exit__"), [self.type_of(v) if exc and isinstance(v, Ref) else None, v if exc else None, None], {})
                        if exc:
                            sup = self.truth(r)
                            self.branch(sup, lambda: outs.append((self.st, None)), lambda: after(v))
                        else:
                            after(v)
                    except Dead:
                        pass

            def reraise(v):
                self.sinks[-1].append((self.st, v))
                raise Dead

            fin(normal, lambda v: outs.append((self.st, None)))
            fin(rets, lambda v: ctx.rets.append((self.st, v)))
            fin(sink, reraise, True)
            if saved_loop:
                fin(brk, lambda v: saved_loop[0].append((self.st, v)))
                fin(cont, lambda v: saved_loop[1].append((self.st, v)))
            self.merge_all(outs)

        self.case(mgr, one)

    def with_generator(self, n, i, gen):
        """a with statement over a generator: the body is executed at the yield, what it raises is raised there"""
        item = n.items[i]
        cell = self.alloc(H("obj", Ext("sa.cell"), {"yields": 0, "how": 0, "value": None}))
        ctx = self.ctx[-1]
        loop = ctx.loops[-1] if ctx.loops else None

        def body(v):
            y = self.s(self.get(cell).d["yields"])
            if y != 0:
                raise Undecided("generator of a with statement that yields again")
            self.put(cell, self.get(cell).with_d("yields", 1))
            rets, ctx.rets = ctx.rets, []
            nl = len(ctx.loops)
            if loop:
                ctx.loops[-1] = ([], [])
            groups = [[], [], [], []]
            try:
                if item.optional_vars is not None:
                    self.assign(item.optional_vars, v)
                self.st_With(n, i + 1)
                groups[0].append((self.st, None))
            except Dead:
                pass
            finally:
                del ctx.loops[nl:]
                groups[1], ctx.rets = ctx.rets, rets
                if loop:
                    groups[2], groups[3] = ctx.loops[-1]
                    ctx.loops[-1] = loop
            outs = []
            for how, g in enumerate(groups):
                for st, v in g:
                    self.st = st
                    self.put(cell, H("obj", Ext("sa.cell"), {"yields": 1, "how": how, "value": v}))
                    outs.append((self.st, None))
            self.merge_all(outs)

        self.consume(gen, body, False)
        if self.s(self.get(cell).d["yields"]) != 1:
            raise Undecided("generator of a with statement that does not yield")

        def leave(how):
            if how == 0:
                return
            v = self.s(self.get(cell).d["value"])
            (ctx.rets if how == 1 else loop[how - 2]).append((self.st, v))
            raise Dead

        self.case(self.get(cell).d["how"], leave)

    def st_Import(self, n):
        for al in n.names:
            if al.name == self.package or al.name.startswith(self.package + "."):
                m = self.import_module(al.name)
                if al.asname:
                    self.store_name(al.asname, m)
                else:
                    self.store_name(al.name.split(".")[0], self.import_module(self.package))
            else:
                self.store_name(al.asname or al.name.split(".")[0], Ext(al.name if al.asname else al.name.split(".")[0]))

    def st_ImportFrom(self, n):
        if n.level:
            base = self.package if n.level == 1 else None
            if base is None:
                raise Undecided("relative import beyond the package")
            dotted = base + ("." + n.module if n.module else "")
        else:
            dotted = n.module
        internal = dotted == self.package or dotted.startswith(self.package + ".")
        m = self.import_module(dotted)
        for al in n.names:
            if al.name == "*":
                if not internal:
                    raise Undecided("star import of " + dotted)
                h = self.get(m)
                names = h.d.get("__all__")
                if names is not None:
                    names = [v for _, v in self.get(names).items]
                else:
                    names = [k for k in h.d if not k.startswith("_")]
                for k in names:
                    self.store_name(k, h.d[k])
            elif internal:
                h = self.get(m)
                if al.name in h.d:
                    v = h.d[al.name]
                elif dotted == self.package and al.name in self.sources:
                    v = self.import_module(dotted + "." + al.name)
                else:
                    self.raise_exc("ImportError", "cannot import name %s from %s" % (al.name, dotted))
                self.store_name(al.asname or al.name, v)
            else:
                self.store_name(al.asname or al.name, self.ext(dotted + "." + al.name))

    def make_func(self, n, name):
        f = Func()
        f.node = n
        c = self.ctx[-1]
        f.closure, f.mod, f.name = c.fr, c.modaddr, name
        h = self.get(c.fr)
        if h.kind == "frame":
            self.captured.add(c.fr.a)
        pre = ""
        if h.kind == "frame":
            pre = h.meta[3] + "."
        f.qual = pre + name
        f.defaults = tuple(self.ev(d) for d in n.args.defaults)
        f.kwdefaults = tuple((a.arg, self.ev(d)) for a, d in zip(n.args.kwonlyargs, n.args.kw_defaults) if d is not None)
        sc = self.scopes.get(n)
        if sc is None:
            sc = self.scopes[n] = Scope(n)
        f.info = sc
        f.isgen = sc.isgen
        f.owner = c.fr if h.kind == "frame" and h.meta[2] == "class" else None
        f.file = self.modfile(c.modaddr)
        return f

    def st_FunctionDef(self, n):
        f = self.make_func(n, n.name)
        v = f
        for d in reversed(n.decorator_list):
            v = self.call(self.ev(d), [v], {})
        self.store_name(n.name, v)

    def st_ClassDef(self, n):
        bases = [self.s(self.ev(b)) for b in n.bases]
        for b in bases:
            if type(b) is Ite:
                raise Undecided("conditional base class")
        kw = {k.arg: self.ev(k.value) for k in n.keywords}
        c = self.ctx[-1]
        h = self.get(c.fr)
        qual = (h.meta[3] + "." if h.kind == "frame" else "") + n.name
        if h.kind == "frame":
            self.captured.add(c.fr.a)
        fr = self.alloc(H("frame", (c.fr.a, c.modaddr, "class", qual), {}))
        self.captured.add(fr.a)
        self.ctx.append(Ctx(fr, None, c.modaddr))
        try:
            self.block(n.body)
        finally:
            self.ctx.pop()
        ns = self.get(fr)
        v = self.make_class(n.name, qual, bases, dict(ns.d), fr, kw)
        for d in reversed(n.decorator_list):
            v = self.call(self.ev(d), [v], {})
        self.store_name(n.name, v)

    def make_class(self, name, qual, bases, ns, fr=None, kw=None):
        info = ClassInfo(name, qual, tuple(bases), self.files.get(self.get(Ref(self.ctx[-1].modaddr)).meta, "?"))
        ref = self.alloc(H("cls", info, ns))
        info.ref = ref
        info.mro = self.c3(ref, bases)
        info.frame = fr.a if fr else None
        if any(isinstance(x, Ext) and x.name in ("enum.Enum", "enum.IntEnum", "enum.Flag", "enum.StrEnum") for x in info.mro):
            self.make_enum(ref, info, ns)
        if Ext("typing.NamedTuple") in bases:
            names = ns.get("__annotations_order__", Tup(()))
            d = self.alloc(H("dict", None, None, [(n, True, ns[n]) for n in names.items if n in ns]))
            ns = {**{k: v for k, v in ns.items() if k not in names.items}, "_fields": names, "_field_defaults": d}
            return self.make_class(name, qual, [self.ext("collections.namedtuple.NT")] + [b for b in bases if b != Ext("typing.NamedTuple")], ns, fr, kw)
        for k, v in ns.items():
            if isinstance(v, Ref) and self.get(v).kind == "obj" and info.members is None and self.user_attr(v, "__set_name__"):
                self.call(self.getattr_leaf(v, "__set_name__"), [ref, k], {})
        if fr is not None:
            for k, v in ns.items():
                for x in (v, *(v.args if isinstance(v, Wrap) else ())):
                    if isinstance(x, Func) and x.owner is not None and x.owner.a == fr.a:
                        x.owner = ref
        for c in info.mro[1:]:
            if isinstance(c, Ref) and "__init_subclass__" in self.get(c).d:
                f = self.get(c).d["__init_subclass__"]
                f = f.args[0] if isinstance(f, Wrap) else f
                self.call(f, [ref], {k: v for k, v in (kw or {}).items() if k != "metaclass"})
                break
        if (kw or {}).get("metaclass") is not None and isinstance(kw["metaclass"], Ref):
            raise Undecided("metaclass")
        return ref

    def c3(self, ref, bases):
        out = [ref]
        seqs = []
        for b in bases:
            if isinstance(b, Ref):
                seqs.append(list(self.get(b).meta.mro))
            elif isinstance(b, Ext) and b.name.startswith("builtins.") and b.name[9:] in EXC_BASES:
                seqs.append([Ext("builtins." + x) for x in EXC_BASES[b.name[9:]]])
            elif isinstance(b, Ext):
                seqs.append([b, Ext("builtins.object")] if b.name != "builtins.object" else [b])
            else:
                raise Undecided("base class %r" % (b,))
        seqs.append(list(bases))
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                raise Undecided("inconsistent class hierarchy")
            out.append(h)
            seqs = [[x for x in s if x != h] for s in seqs]
            seqs = [s for s in seqs if s]
        if out[-1] != Ext("builtins.object"):
            out.append(Ext("builtins.object"))
        return tuple(out)

    def make_enum(self, ref, info, ns):
        members = []
        n = 0
        d = dict(ns)
        if any(isinstance(x, Ext) and x.name in ("builtins.str", "builtins.int", "builtins.float", "builtins.tuple") for x in info.mro):
            raise Undecided("enumeration that mixes in a data type")
        if "__new__" in ns:
            raise Undecided("__new__ of an enumeration")
        for k, v in ns.items():
            if k.startswith("_") and k.endswith("_") or k.startswith("__") or "." in k or isinstance(v, (Func, Wrap)) or (isinstance(v, Ref) and self.get(v).kind in ("cls",)):
                continue
            if isinstance(v, Sym) and v.kind == "auto":
                n += 1
                v = n
            elif isinstance(v, int):
                n = v
            alias = None
            for m in members:
                if same(self.get(m).d["value"], v):
                    alias = m
            if alias is None:
                alias = self.alloc(H("obj", ref, {"name": k, "value": v, "_name_": k, "_value_": v}))
                members.append(alias)
            d[k] = alias
        info.members = tuple(members)
        self.put(ref, H("cls", info, d))
        found, init, _ = self.class_lookup(ref, "__init__")
        if found:
            for m in members:
                v = self.get(m).d["value"]
                self.call(self.bind_class_attr(init, m, ref), list(v.items) if isinstance(v, Tup) else [v], {})

    # ------------------------------------------------------------------ assignment
    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            self.setitem(o, self.ev_index(t.slice), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            def one(items):
                star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
                if star:
                    k = star[0]
                    rest = len(t.elts) - k - 1
                    if len(items) < len(t.elts) - 1:
                        self.raise_exc("ValueError", "not enough values to unpack")
                    mid = items[k:len(items) - rest]
                    vals = items[:k] + [self.new_list(mid)] + items[len(items) - rest:]
                    for e, y in zip(t.elts, vals):
                        self.assign(e.value if isinstance(e, ast.Starred) else e, y)
                    return
                if len(items) != len(t.elts):
                    self.raise_exc("ValueError", "wrong number of values to unpack")
                for e, y in zip(t.elts, items):
                    self.assign(e, y)

            self.with_seq(v, one)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            raise Undecided("assignment target")

    def scope_of(self, name):
        c = self.ctx[-1]
        h = self.get(c.fr)
        if h.kind == "mod":
            return c.fr
        if c.fn is not None:
            info = c.fn.info
            if name in info.globals:
                return Ref(c.modaddr)
            if name in info.nonlocals:
                a = h.meta[0]
                while True:
                    g = self.get(Ref(a))
                    if g.kind == "mod":
                        raise Undecided("nonlocal " + name)
                    if name in g.d and g.meta[2] != "class":
                        return Ref(a)
                    a = g.meta[0]
        return c.fr

    def store_name(self, name, v):
        fr = self.scope_of(name)
        if self.ctx[-1].fn is None and self.get(fr).kind == "frame" and self.get(fr).meta[2] == "comp":
            pass
        self.put(fr, self.get(fr).with_d(name, v))

    def load_name(self, name):
        c = self.ctx[-1]
        fr = c.fr
        h = self.get(fr)
        # function scope: a local name is never looked up further out
        if h.kind == "frame" and h.meta[2] == "func" and c.fn is not None:
            info = c.fn.info
            if name in info.locals:
                v = h.d.get(name, UNBOUND)
                return self.bound(v, "UnboundLocalError", name)
            if name in info.globals:
                return self.load_global(Ref(c.modaddr), name)
        a = fr.a
        first = True
        while True:
            g = self.get(Ref(a))
            if g.kind == "mod":
                return self.load_global(Ref(a), name)
            if (first or g.meta[2] != "class") and name in g.d:
                v = g.d[name]
                if not (self.s(v) is UNBOUND and g.meta[2] == "class"):
                    return self.bound(v, "NameError", name)
            first = False
            a = g.meta[0]

    def load_global(self, mod, name):
        g = self.get(mod)
        if name in g.d:
            return self.bound(g.d[name], "NameError", name)
        if name in self.builtins:
            return self.builtins[name]
        if name in EXC_BASES:
            return Ext("builtins." + name)
        if name == "__file__":
            return "file"
        self.raise_exc("NameError", "name '%s' is not defined" % name)

    def bound(self, v, cls, name):
        if type(v) is not Ite:
            if v is UNBOUND:
                self.raise_exc(cls, name)
            return v
        v = self.s(v)
        if type(v) is not Ite:
            return self.bound(v, cls, name)
        bad = lift(lambda x: x is UNBOUND, v)
        bad = self.s(bad)
        if bad is False:
            return v

        def onbad():
            self.raise_exc(cls, name)

        self.branch(bad, onbad, lambda: None)
        return self.s(v)

    # ------------------------------------------------------------------ expressions
    def ev(self, n):
        self.steps += 1
        m = getattr(self, "ex_" + type(n).__name__, None)
        if m is None:
            raise Undecided("expression %s at %r" % (type(n).__name__, self.loc()))
        return m(n)

    def ex_Constant(self, n):
        v = n.value
        if isinstance(v, float):
            try:
                return T._norm(Fraction(repr(v)))
            except (ValueError, OverflowError):
                return Ext("math.inf")
        if isinstance(v, complex):
            return num(padd(poly(Fraction(repr(v.real))), pmul(T.J, poly(Fraction(repr(v.imag))))))
        if isinstance(v, bytes):
            return Bytes(v)
        if v is Ellipsis:
            return Ext("builtins.Ellipsis")
        return v

    def ex_Name(self, n):
        return self.load_name(n.id)

    def ex_Attribute(self, n):
        o = self.ev(n.value)
        self.line = n.lineno
        return self.getattr(o, n.attr)

    def ex_NamedExpr(self, n):
        v = self.ev(n.value)
        # binds in the enclosing function scope
        saved = self.ctx[-1]
        fr = saved.fr
        h = self.get(fr)
        while h.kind == "frame" and h.meta[2] == "comp":
            fr = Ref(h.meta[0])
            h = self.get(fr)
        self.put(fr, h.with_d(n.target.id, v))
        return v

    def ex_Tuple(self, n):
        return self.with_stars(self.parts(n.elts), Tup)

    def parts(self, elts):
        return [(True, self.ev(e.value)) if isinstance(e, ast.Starred) else (False, self.ev(e)) for e in elts]

    def ex_List(self, n):
        out = []
        for star, v in self.parts(n.elts):
            if star:
                v = self.s(v)
                if type(v) is Ite:
                    v = self.case(v, lambda x: self.alloc(H("list", None, None, list(self.iterate(x)))))
                out += list(self.iterate(v))
            else:
                out.append((True, v))
        return self.alloc(H("list", None, None, out))

    def new_list(self, vals, kind="list"):
        return self.alloc(H(kind, None, None, [(True, v) for v in vals]))

    def ex_Set(self, n):
        r = self.alloc(H("set"))
        for star, v in self.parts(n.elts):
            if star:
                self.each(v, lambda x: self.set_add(r, x))
            else:
                self.set_add(r, v)
        return r

    def ex_Dict(self, n):
        r = self.alloc(H("dict"))
        for k, v in zip(n.keys, n.values):
            if k is None:
                self.dict_update(r, self.ev(v))
            else:
                kk = self.ev(k)
                self.setitem(r, kk, self.ev(v))
        return r

    def ex_BinOp(self, n):
        a = self.ev(n.left)
        b = self.ev(n.right)
        self.line = n.lineno
        return self.binop(BIN[type(n.op)], a, b)

    def ex_UnaryOp(self, n):
        v = self.ev(n.operand)
        if isinstance(n.op, ast.Not):
            return b_not(self.truth(v))
        if isinstance(n.op, ast.USub):
            v = self.s(v)
            if self.has_ref(v):
                return self.case(v, lambda x: self.call(self.getattr(x, "__neg__"), [], {}) if isinstance(x, Ref) else self.pure(self._neg, x))
            return self.pure(self._neg, v)
        if isinstance(n.op, ast.UAdd):
            return self.pure(lambda x: x if is_num(x) else self._terr("bad operand for unary +"), v)
        return self.pure(lambda x: ~x if isinstance(x, int) else self._und("~"), v)

    def _neg(self, x):
        if is_num(x):
            return num(pneg(poly(x)))
        if isinstance(x, Sym) and x.kind in ("any", "id"):
            raise Undecided("arithmetic on opaque value")
        raise PyExc("TypeError", "bad operand type for unary -")

    def _terr(self, m):
        raise PyExc("TypeError", m)

    def _und(self, m):
        raise Undecided(m)

    def ex_BoolOp(self, n):
        isand = isinstance(n.op, ast.And)

        def go(i):
            v = self.ev(n.values[i])
            if i == len(n.values) - 1:
                return v
            c = self.truth(v)
            if isand:
                return self.branch(c, lambda: go(i + 1), lambda: self.s(v))
            return self.branch(c, lambda: self.s(v), lambda: go(i + 1))

        return go(0)

    def ex_IfExp(self, n):
        c = self.truth(self.ev(n.test))
        return self.branch(c, lambda: self.ev(n.body), lambda: self.ev(n.orelse))

    def ex_Compare(self, n):
        left = self.ev(n.left)

        def go(i, left):
            right = self.ev(n.comparators[i])
            c = self.compare(n.ops[i], left, right)
            if i == len(n.ops) - 1:
                return c
            return self.branch(c, lambda: go(i + 1, right), lambda: False)

        return go(0, left)

    def ex_Call(self, n):
        f = self.ev(n.func)
        # super() without arguments
        if isinstance(f, Ext) and f.name == "builtins.super" and not n.args:
            return self.mk_super()
        kwargs = {}
        args = self.parts(n.args)
        stars = any(star for star, _ in args)
        if not stars:
            args = [v for _, v in args]
        for k in n.keywords:
            if k.arg is None:
                v = self.s(self.ev(k.value))
                if type(v) is Ite or not isinstance(v, Ref):
                    raise Undecided("** argument")
                if self.get(v).kind != "dict":
                    raise Undecided("** argument")
                kwitems = self.get(v).items
                for key, g, val in kwitems:
                    if self.s(g) is not True:
                        g2 = self.s(g)
                        if g2 is False:
                            continue
                        # optional keyword: fork on its presence
                        if stars:
                            return self.with_stars(args, lambda xs: self.call_guarded_kw(f, xs, dict(kwargs), n, v))
                        return self.call_guarded_kw(f, args, kwargs, n, v)
                    kwargs[key] = val
            else:
                kwargs[k.arg] = self.ev(k.value)
        self.line = n.lineno
        self.calls.add((self.ctx[-1].fn.file if self.ctx[-1].fn else "", n.lineno, n.col_offset))
        if stars:
            return self.with_stars(args, lambda xs: self.call(f, xs, kwargs))
        return self.call(f, args, kwargs)

    def call_guarded_kw(self, f, args, kwargs, n, v):
        def rest(extra):
            kw = dict(kwargs)
            kw.update(extra)
            for k in n.keywords:
                if k.arg is not None and k.arg not in kw:
                    kw[k.arg] = self.ev(k.value)
            return self.call(f, args, kw)

        entries = self.get(v).items

        def go(i, extra):
            if i == len(entries):
                return rest(extra)
            key, g, val = entries[i]
            return self.branch(g, lambda: go(i + 1, {**extra, key: val}), lambda: go(i + 1, extra))

        return go(0, {})

    def mk_super(self):
        c = self.ctx[-1]
        fr = c.fr
        h = self.get(fr)
        fn = c.fn
        while fn is None or fn.owner is None:
            raise Undecided("super() outside a method")
        a = fn.node.args
        first = (a.posonlyargs + a.args)[0].arg
        return Wrap("super", [fn.owner, self.s(h.d[first])])

    def ex_Lambda(self, n):
        return self.make_func(n, "<lambda>")

    def ex_JoinedStr(self, n):
        vals = []
        for p in n.values:
            if isinstance(p, ast.Constant):
                vals.append(p.value)
            else:
                vals.append(self.ev(p))
        return self.concat(vals)

    def ex_FormattedValue(self, n):
        v = self.ev(n.value)
        spec = ""
        if n.format_spec is not None:
            spec = self.ev(n.format_spec)
        if n.conversion in (114,):
            return self.format(self.to_repr(v), spec)
        if n.conversion == 115:
            return self.format(self.to_str(v), spec)
        return self.format(v, spec)

    def concat(self, vals):
        return self.pure(lambda *xs: sstr([tstr(x) for x in xs]), *[self.to_str(v) for v in vals])

    def format(self, v, spec):
        if self.s(spec) == "":
            return self.to_str(v)

        def one(x, sp):
            if not isinstance(sp, str):
                raise Undecided("format spec")
            if isinstance(x, (str, int)) and not isinstance(x, bool):
                try:
                    return format(x, sp)
                except ValueError as e:
                    raise PyExc("ValueError", str(e))
            if x is None or isinstance(x, (Tup,)):
                raise PyExc("TypeError", "unsupported format string")
            if isinstance(x, Fraction) and sp.endswith("r"):
                return tstr(x)
            if isinstance(x, (Fraction, Poly)) and sp in (".17g", ".16g", "", "r"):
                return tstr(x)
            return SStr([Fn("format", (x, sp))])

        return self.pure(one, v, spec)

    def ex_Subscript(self, n):
        o = self.ev(n.value)
        k = self.ev_index(n.slice)
        self.line = n.lineno
        return self.getitem(o, k)

    def ev_index(self, s):
        if isinstance(s, ast.Slice):
            return Slice(*[self.s(self.ev(x)) if x is not None else None for x in (s.lower, s.upper, s.step)])
        return self.ev(s)

    ex_Slice = ev_index

    def ex_Starred(self, n):
        raise Undecided("starred expression")

    def comp_start(self, n):
        """what a comprehension evaluates first: (its context, the outermost iterable)"""
        c = self.ctx[-1]
        self.captured.add(c.fr.a)
        h = self.get(c.fr)
        fr = self.alloc(H("frame", (c.fr.a, c.modaddr, "comp", (h.meta[3] + ".<comp>") if h.kind == "frame" else "<comp>"), {}))
        first = self.ev(n.generators[0].iter)
        c2 = Ctx(fr, None, c.modaddr)
        c2.exc = c.exc
        return c2, first

    def comp(self, n, emit, start=None):
        c2, first = start or self.comp_start(n)

        def run(i, it):
            gen = n.generators[i]

            def body(value):
                self.assign(gen.target, value)

                def conds(j):
                    if j == len(gen.ifs):
                        if i + 1 == len(n.generators):
                            emit()
                        else:
                            run(i + 1, self.ev(n.generators[i + 1].iter))
                        return
                    t = self.truth(self.ev(gen.ifs[j]))
                    self.branch(t, lambda: conds(j + 1), lambda: None)

                conds(0)

            self.each(it, body, gen.iter)

        nctx = len(self.ctx)
        self.ctx.append(c2)
        try:
            run(0, first)
        finally:
            del self.ctx[nctx:]

    def ex_ListComp(self, n):
        r = self.alloc(H("list"))
        self.comp(n, lambda: self.list_append(r, self.ev(n.elt)))
        return r

    def ex_GeneratorExp(self, n):
        start = self.comp_start(n)
        self.captured.add(start[0].fr.a)
        return self.new_gen(lambda go: self.comp(n, lambda: go(self.ev(n.elt)), start))

    def ex_SetComp(self, n):
        r = self.alloc(H("set"))
        self.comp(n, lambda: self.set_add(r, self.ev(n.elt)))
        return r

    def ex_DictComp(self, n):
        r = self.alloc(H("dict"))

        def emit():
            k = self.ev(n.key)
            self.setitem(r, k, self.ev(n.value))

        self.comp(n, emit)
        return r

    def ex_Yield(self, n):
        v = self.ev(n.value) if n.value is not None else None
        self.ctx[-1].consumer(v)
        return None

    def ex_YieldFrom(self, n):
        v = self.ev(n.value)
        return self.each(v, lambda x: self.ctx[-1].consumer(x) and None, n.value)

    # ------------------------------------------------------------------ match statement
    def st_Match(self, n):
        subj = self.ev(n.subject)

        def go(i):
            if i == len(n.cases):
                return
            cs = n.cases[i]

            def yes():
                if cs.guard is None:
                    self.block(cs.body)
                else:
                    self.branch(self.truth(self.ev(cs.guard)), lambda: self.block(cs.body), lambda: go(i + 1))

            self.branch(self.match(cs.pattern, subj), yes, lambda: go(i + 1))

        go(0)

    def match(self, p, v):
        if isinstance(p, ast.MatchValue):
            return self.eq(v, self.ev(p.value))
        if isinstance(p, ast.MatchSingleton):
            return self.compare(ast.Is(), v, p.value)
        if isinstance(p, ast.MatchAs):
            c = True
            if p.pattern is not None:
                c = self.match(p.pattern, v)
            if p.name:
                self.store_name(p.name, v)
            return c
        if isinstance(p, ast.MatchOr):
            c = False
            for q in p.patterns:
                c = b_or(c, self.match(q, v))
            return c
        if isinstance(p, ast.MatchClass) and not p.patterns:
            c = self.pure(self.isinstance_leaf, v, self.ev(p.cls))
            for n, q in zip(p.kwd_attrs, p.kwd_patterns):
                c = b_and(c, self.branch(c, lambda: self.match(q, self.getattr(v, n)), lambda: False))
            return c
        if isinstance(p, ast.MatchSequence) and not any(isinstance(q, ast.MatchStar) for q in p.patterns):
            v = self.s(v)
            if type(v) is Ite:
                raise Undecided("match pattern")
            if isinstance(v, Ref) and self.get(v).kind == "list" and self.get(v).meta not in ("iter", "keys", "values"):
                v = Tup(self.seq(v))
            elif isinstance(v, Ref) and self.get(v).kind == "obj":
                raise Undecided("match pattern")
            if not isinstance(v, Tup) or len(v.items) != len(p.patterns):
                return False
            c = True
            for x, q in zip(v.items, p.patterns):
                c = b_and(c, self.branch(c, lambda: self.match(q, x), lambda: False))
            return c
        raise Undecided("match pattern")

    # ------------------------------------------------------------------ truth and comparison
    def has_ref(self, v):
        if type(v) is Ite:
            return any(isinstance(l, (Ref, Wrap)) for _, l in leaves(v))
        return isinstance(v, (Ref, Wrap))

    def truth(self, v):
        v = self.s(v)
        if v is True or v is False:
            return v
        if self.has_ref(v):
            need = [l for _, l in (leaves(v) if type(v) is Ite else [(True, v)]) if isinstance(l, Ref) and self.get(l).kind == "obj" and self.user_attr(l, "__bool__", "__len__")]
            if need:
                def one(x):
                    if isinstance(x, Ref) and self.get(x).kind == "obj":
                        if self.user_attr(x, "__bool__"):
                            return self.truth(self.call(self.getattr(x, "__bool__"), [], {}))
                        if self.user_attr(x, "__len__"):
                            return self.truth(self.call(self.getattr(x, "__len__"), [], {}))
                    return self.truth_leaf(x)

                return self.case(v, one)
        return self.pure(self.truth_leaf, v)

    def user_attr(self, ref, *names):
        m = self.get(ref).meta
        if isinstance(m, Ref):
            for c in self.get(m).meta.mro:
                if isinstance(c, Ref) and any(k in self.get(c).d for k in names):
                    return True
        return False

    def truth_leaf(self, x):
        if x is None:
            return False
        if isinstance(x, bool):
            return x
        if is_num(x):
            return b_not(self.th.eq0(poly(x)))
        if isinstance(x, str):
            return x != ""
        if isinstance(x, SStr):
            for p in x.parts:
                if isinstance(p, (str, StrOf)):
                    return True
            return self.th.pred("truthy", x)
        if isinstance(x, Bytes):
            return x.b != b""
        if isinstance(x, Tup):
            return len(x.items) > 0
        if isinstance(x, Ref):
            h = self.get(x)
            if h.kind in ("list", "dict", "set"):
                if h.meta == "iter":
                    return True
                r = False
                for e in h.items:
                    r = b_or(r, e[0] if h.kind == "list" else e[1])
                return r
            if h.kind == "elem":
                r = False
                for g, _ in h.items:
                    r = b_or(r, g)
                return r
            return True
        if isinstance(x, Sym):
            if x.kind == "true":
                return True
            return self.th.pred("truthy", x)
        if isinstance(x, Fn):
            return self.th.pred("truthy", x)
        return True

    def eq_leaf(self, a, b):
        if same(a, b):
            return True
        if is_num(a) and is_num(b):
            return self.th.eq0(psub(poly(a), poly(b)))
        if is_text(a) and is_text(b):
            return self.eq_text(a, b)
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return False
            r = True
            for x, y in zip(a.items, b.items):
                r = b_and(r, lift(self.eq_leaf, x, y))
            return r
        if isinstance(a, Ref) and isinstance(b, Ref):
            ha, hb = self.get(a), self.get(b)
            if "keys" in (ha.meta, hb.meta) and ha.kind == hb.kind == "list" and ha.meta == hb.meta:
                if any(self.s(g) is not True for g, _ in ha.items + hb.items):
                    raise Undecided("comparison of conditional dicts")
                r = len(ha.items) == len(hb.items)
                for _, x in ha.items:
                    m = False
                    for _, y in hb.items:
                        m = b_or(m, lift(self.eq_leaf, x, y))
                    r = b_and(r, m)
                return r
            if ha.kind == "list" and hb.kind == "list" and (ha.meta in ("keys", "values") or hb.meta in ("keys", "values")):
                return False
            if ha.kind == "list" and hb.kind == "list":
                ia, ib = [e for e in ha.items], [e for e in hb.items]
                if any(self.s(g) is not True for g, _ in ia + ib):
                    raise Undecided("comparison of lists of unknown length")
                if len(ia) != len(ib):
                    return False
                r = True
                for (_, x), (_, y) in zip(ia, ib):
                    r = b_and(r, lift(self.eq_leaf, x, y))
                return r
            if ha.kind in ("dict", "set") and hb.kind == ha.kind:
                if any(self.s(e[1]) is not True for e in ha.items + hb.items):
                    raise Undecided("comparison of conditional dicts")
                if len(ha.items) != len(hb.items):
                    return False
                r = True
                for k, _, v in ha.items:
                    m = [w for k2, _, w in hb.items if same(k, k2)]
                    if not m:
                        return False
                    r = b_and(r, lift(self.eq_leaf, v, m[0]))
                return r
            return False
        if a is None or b is None:
            return False
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Sym):
                if x.kind == "id":
                    if isinstance(y, Sym) and y.kind not in ("id",):
                        return self.th.pred("eqv", *sorted((x, y), key=repr))
                    return False
                if x.kind == "any" and (is_num(y) or is_text(y) or isinstance(y, (Sym, Fn))):
                    return self.th.pred("eqv", *sorted((x, y), key=lambda z: (type(z).__name__, repr(z))))
                if x.kind == "str" and is_text(y):
                    return self.eq_text(SStr([x]), y)
            if isinstance(x, Fn) and isinstance(y, Fn) and x.name == y.name == "address":
                return False
            if isinstance(x, Fn) and not isinstance(y, Ref):
                return self.th.pred("eqv", *sorted((x, y), key=lambda z: (type(z).__name__, repr(z))))
        return False

    def eq_text(self, a, b):
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        pa = list(a.parts) if isinstance(a, SStr) else [a] if a else []
        pb = list(b.parts) if isinstance(b, SStr) else [b] if b else []
        # strip common ends
        while pa and pb and (same(pa[0], pb[0])):
            pa.pop(0)
            pb.pop(0)
        while pa and pb and (same(pa[-1], pb[-1])):
            pa.pop()
            pb.pop()
        if not pa and not pb:
            return True
        if not pa or not pb:
            rest = pa or pb
            if any(isinstance(p, (str, StrOf)) for p in rest):
                return False
            return self.th.pred("eqs", "", sstr(rest))
        if isinstance(pa[0], str) and isinstance(pb[0], str):
            n = min(len(pa[0]), len(pb[0]))
            if pa[0][:n] != pb[0][:n]:
                return False
        if isinstance(pa[-1], str) and isinstance(pb[-1], str):
            n = min(len(pa[-1]), len(pb[-1]))
            if pa[-1][len(pa[-1]) - n:] != pb[-1][len(pb[-1]) - n:]:
                return False
        if len(pa) == 1 and len(pb) == 1:
            for x, y in ((pa[0], pb[0]), (pb[0], pa[0])):
                if isinstance(x, StrOf):
                    if isinstance(y, StrOf):
                        return lift(self.eq_leaf, x.v, y.v)
                    if isinstance(y, str):
                        if isinstance(x.v, Sym):
                            return False if x.v.kind == "id" else self.th.pred("eqs", y, SStr([x]))
                        try:
                            c = Fraction(y)
                        except (ValueError, ZeroDivisionError):
                            return False
                        if is_num(x.v):
                            return self.th.eq0(psub(poly(x.v), poly(c)))
        x, y = sstr(pa), sstr(pb)
        return self.th.pred("eqs", *sorted((x, y), key=lambda z: (type(z).__name__, repr(z))))

    def eq(self, a, b):
        a, b = self.s(a), self.s(b)
        if self.has_ref(a) or self.has_ref(b):
            need = False
            for v in (a, b):
                for _, l in leaves(v) if type(v) is Ite else [(True, v)]:
                    if isinstance(l, Ref) and self.get(l).kind == "obj" and (self.user_attr(l, "__eq__") or self.data_eq(l)):
                        need = True
            if need:
                def one(x, y):
                    for p, q in ((x, y), (y, x)):
                        if isinstance(p, Ref) and self.get(p).kind == "obj" and self.user_attr(p, "__eq__"):
                            return self.truth(self.call(self.getattr(p, "__eq__"), [q], {}))
                    f = self.data_eq(x)
                    if f and self.data_eq(y) and self.get(x).meta is self.get(y).meta:
                        r = True
                        for n in f:
                            r = b_and(r, self.eq(self.getattr(x, n), self.getattr(y, n)))
                        return r
                    return self.pure(self.eq_leaf, x, y)

                return self.cases([a, b], one)
        return self.pure(self.eq_leaf, a, b)

    def data_eq(self, x):
        """the fields that decide the equality of an instance of a data class"""
        if isinstance(x, Ref):
            h = self.get(x)
            if h.kind == "obj" and isinstance(h.meta, Ref):
                info = self.get(h.meta).meta
                if info.dataclass is not None and info.plain_eq:
                    return [f[0] for f in info.dataclass]
        return None

    def is_leaf(self, a, b):
        if isinstance(a, Ref) or isinstance(b, Ref):
            return a is b
        if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None:
            if type(a) is type(b):
                return a == b
            return False
        if type(a) is type(b):
            return same(a, b)
        return False

    def lt_leaf(self, a, b):
        if is_num(a) and is_num(b):
            return self.th.lt0(psub(poly(a), poly(b)))
        if isinstance(a, str) and isinstance(b, str):
            return a < b
        if isinstance(a, Tup) and isinstance(b, Tup):
            r = len(a.items) < len(b.items)
            for x, y in reversed(list(zip(a.items, b.items))):
                r = b_or(lift(self.lt_leaf, x, y), b_and(lift(self.eq_leaf, x, y), r))
            return r
        if a is None or b is None or (is_text(a) != is_text(b) and (is_num(a) or is_num(b))):
            raise PyExc("TypeError", "'<' not supported between instances")
        if isinstance(a, Ref) and isinstance(b, Ref) and self.get(a).kind == self.get(b).kind == "list":
            ia, ib = self.concrete_items(self.get(a)), self.concrete_items(self.get(b))
            if ia is not None and ib is not None:
                return self.lt_leaf(Tup(ia), Tup(ib))
        if isinstance(a, Ref) and isinstance(b, Ref) and self.get(a).kind == self.get(b).kind == "set":
            return b_and(self.models["set.issubset"](self, [a, b], {}), b_not(self.models["set.issubset"](self, [b, a], {})))
        if isinstance(a, (Ref,)) or isinstance(b, Ref):
            raise Undecided("ordering of objects")
        return self.th.pred("ltv", a, b)

    def compare(self, op, a, b):
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            return b_not(self.eq(a, b))
        if isinstance(op, ast.Is):
            return self.pure(self.is_leaf, a, b)
        if isinstance(op, ast.IsNot):
            return b_not(self.pure(self.is_leaf, a, b))
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            return b_not(self.contains(b, a))
        if isinstance(op, ast.Lt):
            return self.order(a, b, "lt")
        if isinstance(op, ast.Gt):
            return self.order(b, a, "gt")
        if isinstance(op, ast.LtE):
            return self.order(b, a, "le")
        if isinstance(op, ast.GtE):
            return self.order(a, b, "ge")
        raise Undecided("comparison")

    def order(self, a, b, op="lt"):
        """a < b for lt and gt, not a < b for le and ge, asked as the operator op of the source"""
        neg = op in ("le", "ge")
        if self.has_ref(a) or self.has_ref(b):
            own = {"lt": "__lt__", "gt": "__gt__", "le": "__le__", "ge": "__ge__"}[op]
            other = {"lt": "__gt__", "gt": "__lt__", "le": "__ge__", "ge": "__le__"}[op]

            def one(x, y):
                l, r = (x, y) if op in ("lt", "ge") else (y, x)  # as written: l op r
                for p, q, m in ((l, r, own), (r, l, other)):
                    if isinstance(p, Ref) and self.get(p).kind == "obj" and self.user_attr(p, m):
                        return self.truth(self.call(self.getattr(p, m), [q], {}))
                if neg and all(isinstance(p, Ref) and self.get(p).kind == "set" for p in (x, y)):
                    return self.models["set.issubset"](self, [y, x], {})
                for p in (l, r):
                    if isinstance(p, Ref) and self.get(p).kind == "obj" and isinstance(self.get(p).meta, Ref):
                        how = [o for o in (self.get(c).meta.ordered for c in self.get(self.get(p).meta).meta.mro if isinstance(c, Ref)) if o]
                        if how and how[0] is True:
                            f = self.data_eq(l)
                            if f and isinstance(r, Ref) and self.get(l).meta is self.get(r).meta:
                                x, y = (Tup([self.getattr(q, n) for n in f]) for q in (x, y))
                                return self.order(x, y, op)
                            raise Undecided("ordering of objects")
                        if how:
                            if p is not l or not self.user_attr(l, "__lt__"):
                                raise Undecided("ordering of objects")
                            less = self.truth(self.call(self.getattr(l, "__lt__"), [r], {}))
                            return b_not(less) if op == "ge" else b_or(less, self.eq(l, r)) if op == "le" else b_and(b_not(less), b_not(self.eq(l, r)))
                        self.raise_exc("TypeError", "ordering not supported between instances")
                t = self.pure(self.lt_leaf, x, y)
                return b_not(t) if neg else t

            return self.cases([self.s(a), self.s(b)], one)
        t = self.pure(self.lt_leaf, a, b)
        return b_not(t) if neg else t

    def contains(self, cont, x):
        def one(c):
            if isinstance(c, Ref) and self.get(c).kind == "gen":
                if not self.force_quietly(c):
                    return self.first(c, lambda y: (self.eq(x, y), True), lambda: False)
            if isinstance(c, Tup):
                r = False
                for y in c.items:
                    r = b_or(r, self.eq(x, y))
                return r
            if is_text(c):
                return self.pure(lambda t, y: (y in t) if isinstance(t, str) and isinstance(y, str) else (self.th.pred("in", y, t) if is_text(y) else self._terr("in <string> requires string")), c, x)
            if isinstance(c, Ref):
                h = self.get(c)
                if h.kind == "list":
                    r = False
                    for g, y in h.items:
                        r = b_or(r, b_and(g, self.eq(x, y)))
                    return r
                if h.kind in ("dict", "set"):
                    r = False
                    for k, g, _ in h.items:
                        r = b_or(r, b_and(g, self.eq(x, k)))
                    return r
                if h.kind == "cls" and getattr(h.meta, "members", None) is not None:
                    r = False
                    for m in h.meta.members:
                        r = b_or(r, self.pure(self.is_leaf, x, m))
                    return r
                if h.kind == "obj":
                    if self.user_attr(c, "__contains__"):
                        return self.truth(self.call(self.getattr(c, "__contains__"), [x], {}))
                    r = False
                    for g, y in self.iterate(c):
                        r = b_or(r, b_and(g, self.eq(x, y)))
                    return r
            if c is None or is_num(c):
                self.raise_exc("TypeError", "argument is not iterable")
            raise Undecided("membership in %r" % (c,))

        return self.case(cont, one)

    # ------------------------------------------------------------------ operators
    def binop(self, op, a, b):
        a, b = self.s(a), self.s(b)
        if self.has_ref(a) or self.has_ref(b):
            return self.cases([a, b], lambda x, y: self.binop_ref(op, x, y))
        if op == "%" and any(is_text(l) for _, l in (leaves(a) if type(a) is Ite else [(True, a)])):
            return self.case(a, lambda x: self.percent(x, b) if is_text(x) else self.pure(lambda p, q: self.bin_leaf(op, p, q), x, b))
        return self.pure(lambda x, y: self.bin_leaf(op, x, y), a, b)

    def bin_leaf(self, op, x, y):
        if is_num(x) and is_num(y):
            return num_bin(op, x, y)
        if op == "+" and is_text(x) and is_text(y):
            return sstr([x, y])
        if op == "+" and isinstance(x, Tup) and isinstance(y, Tup):
            return Tup(x.items + y.items)
        if op == "*":
            for p, q in ((x, y), (y, x)):
                if isinstance(q, int) and not isinstance(q, bool):
                    if isinstance(p, Tup):
                        return Tup(p.items * q)
                    if is_text(p):
                        return sstr([p] * q)
        if op == "+" and isinstance(x, Bytes) and isinstance(y, Bytes):
            return Bytes(x.b + y.b)
        if any(isinstance(z, (Sym, Fn, Ext)) for z in (x, y)):
            bad = [z for z in (x, y) if z is None]
            if bad:
                raise PyExc("TypeError", "unsupported operand")
            raise Undecided("operator %s on opaque value %r %r" % (op, x, y))
        raise PyExc("TypeError", "unsupported operand types for " + op)

    def binop_ref(self, op, x, y):
        hx = self.get(x) if isinstance(x, Ref) else None
        hy = self.get(y) if isinstance(y, Ref) else None
        if hx and hx.kind == "obj" and self.user_attr(x, "__%s__" % DUNDER[op]):
            return self.call(self.getattr(x, "__%s__" % DUNDER[op]), [y], {})
        if hy and hy.kind == "obj" and self.user_attr(y, "__r%s__" % DUNDER[op]):
            return self.call(self.getattr(y, "__r%s__" % DUNDER[op]), [x], {})
        if op in "|&-^" and any(h and h.kind == "list" and h.meta == "keys" for h in (hx, hy)):
            x, y = (self.models["builtins.set"](self, [z], {}) for z in (x, y))
            return self.binop_ref(op, x, y)
        if hx and hx.kind == "list" and hx.meta == "array" or hy and hy.kind == "list" and hy.meta == "array":
            return self.models["array.bin"](self, op, x, y)
        if hx and hy and hx.kind == "list" and hy.kind == "list" and op == "+":
            return self.alloc(H("list", None, None, hx.items + hy.items))
        if op == "*" and hx and hx.kind == "list" and isinstance(y, int):
            return self.alloc(H("list", None, None, hx.items * y))
        if op == "*" and hy and hy.kind == "list" and isinstance(x, int):
            return self.alloc(H("list", None, None, hy.items * x))
        if hx and hy and hx.kind == hy.kind == "set" and op in "|&-^":
            name = {"|": "union", "&": "intersection", "-": "difference", "^": "symmetric_difference"}[op]
            return self.models["set." + name](self, [x, y], {})
        if hx and hy and hx.kind == hy.kind == "dict" and op == "|":
            r = self.alloc(H("dict", None, None, hx.items))
            self.dict_update(r, y)
            return r
        if op == "%" and is_text(x):
            return self.percent(x, y)
        if isinstance(x, Wrap) or isinstance(y, Wrap):
            raise Undecided("operator on wrapper")
        self.raise_exc("TypeError", "unsupported operand types for " + op)

    def percent(self, fmt, arg):
        if not isinstance(fmt, str):
            raise Undecided("% formatting with unknown format")
        arg = self.s(arg)
        args = list(arg.items) if isinstance(arg, Tup) else [arg]
        import re

        parts = []
        pos = 0
        k = 0
        for m in re.finditer(r"%(\(\w+\))?([-+ #0]*\d*(?:\.\d+)?)([sdrfgeixX%])", fmt):
            parts.append(fmt[pos:m.start()])
            pos = m.end()
            if m.group(3) == "%":
                parts.append("%")
                continue
            if m.group(1):
                v = self.getitem(arg, m.group(1)[1:-1])
            else:
                if k >= len(args):
                    self.raise_exc("TypeError", "not enough arguments for format string")
                v = args[k]
                k += 1
            conv = m.group(3)
            if conv == "s" and not m.group(2):
                parts.append(self.to_str(v))
            elif conv == "r" and not m.group(2):
                parts.append(self.to_repr(v))
            elif conv in "di" and not m.group(2):
                def dec(x):
                    if isinstance(x, (bool, int)):
                        return str(int(x))
                    if isinstance(x, Poly) and is_int_poly(x):
                        return tstr(x)
                    if is_num(x):
                        return SStr([Fn("format", (x, "d"))])
                    if x is None or is_text(x):
                        raise PyExc("TypeError", "%d format: a number is required")
                    return SStr([Fn("format", (x, "d"))])

                parts.append(self.pure(dec, v))
            else:
                sp = m.group(2) + conv

                def fl(x, sp=sp):
                    if x is None or is_text(x) and conv != "s":
                        raise PyExc("TypeError", "must be real number")
                    if isinstance(x, str):
                        return ("%" + sp) % x
                    return SStr([Fn("format", (x, sp))])

                parts.append(self.pure(fl, v))
        parts.append(fmt[pos:])
        return self.concat(parts)

    # ------------------------------------------------------------------ text of values
    def to_str(self, v, rep=False):
        v = self.s(v)
        if self.has_ref(v) or isinstance(v, Tup):
            return self.case(v, lambda x: self.str_leaf(x, rep))
        return self.pure(trepr if rep else tstr, v)

    def to_repr(self, v):
        return self.to_str(v, True)

    def str_leaf(self, x, rep):
        if isinstance(x, Tup):
            parts = ["("]
            for i, e in enumerate(x.items):
                if i:
                    parts.append(", ")
                parts.append(self.to_repr(e))
            parts.append(",)" if len(x.items) == 1 else ")")
            return self.concat(parts)
        if not isinstance(x, Ref):
            return self.pure(trepr if rep else tstr, x)
        h = self.get(x)
        if h.kind == "list":
            parts = ["["]
            for i, (g, e) in enumerate(h.items):
                if self.s(g) is not True:
                    return SStr([Fn("text", (x,))])
                if i:
                    parts.append(", ")
                parts.append(self.to_repr(e))
            parts.append("]")
            return self.concat(parts)
        if h.kind in ("dict", "set"):
            parts = ["{"]
            for i, (k, g, e) in enumerate(h.items):
                if self.s(g) is not True:
                    return SStr([Fn("text", (x,))])
                if i:
                    parts.append(", ")
                parts.append(self.to_repr(k))
                if h.kind == "dict":
                    parts.append(": ")
                    parts.append(self.to_repr(e))
            parts.append("}")
            return self.concat(parts)
        if h.kind == "obj":
            if isinstance(h.meta, Ref):
                for nm in (("__repr__",) if rep else ("__str__", "__repr__")):
                    if self.user_attr(x, nm):
                        return self.call(self.getattr(x, nm), [], {})
                info = self.get(h.meta).meta
                if info.members is not None:
                    return "%s.%s" % (info.name, h.d["name"]) if not rep else "<%s.%s: %s>" % (info.name, h.d["name"], h.d["value"])
                if any(isinstance(c, Ext) and c.name == "builtins.BaseException" for c in info.mro):
                    a = h.d.get("args", Tup(()))
                    a = self.s(a)
                    if isinstance(a, Tup) and len(a.items) == 1:
                        return self.to_str(a.items[0])
                    return SStr([Fn("text", (x,))])
            elif isinstance(h.meta, Ext) and "args" in h.d:
                a = self.s(h.d["args"])
                if isinstance(a, Tup) and len(a.items) == 1:
                    return self.to_str(a.items[0])
            return SStr([Fn("address", (x,))])
        return SStr([Fn("address", (x,))])

    # ------------------------------------------------------------------ attributes
    def is_class(self, v):
        if isinstance(v, Ref):
            return self.get(v).kind == "cls"
        return isinstance(v, Ext) and (v.name.startswith("builtins.") and v.name[9:] in EXC_BASES or v.name in ("builtins.object",))

    def type_of(self, x):
        if isinstance(x, Ref):
            h = self.get(x)
            if h.kind == "obj":
                return h.meta
            if h.kind == "cls":
                return Ext("builtins.type")
            if h.kind == "elem":
                return Ext("xml.etree.ElementTree.Element")
            if h.kind == "list" and h.meta in ("iter", "keys", "values"):
                return Ext({"iter": "builtins.iterator", "keys": "builtins.dict_keys", "values": "builtins.dict_values"}[h.meta])
            return Ext("builtins." + {"gen": "generator"}.get(h.kind, h.kind))
        if x is None:
            return Ext("builtins.NoneType")
        if isinstance(x, bool):
            return Ext("builtins.bool")
        if isinstance(x, int):
            return Ext("builtins.int")
        if isinstance(x, Poly) and is_int_poly(x):
            return Ext("builtins.int")
        if is_num(x):
            return Ext("builtins.float")
        if is_text(x):
            return Ext("builtins.str")
        if isinstance(x, Tup):
            return Ext("builtins.tuple")
        if isinstance(x, Bytes):
            return Ext("builtins.bytes")
        if isinstance(x, (Func, Bound)):
            return Ext("types.FunctionType")
        raise Undecided("type of %r" % (x,))

    def isinstance_leaf(self, x, ty):
        if isinstance(ty, Tup):
            r = False
            for t in ty.items:
                r = b_or(r, lift(self.isinstance_leaf, x, t))
            return r
        if isinstance(x, Sym):
            if x.kind == "str":
                return isinstance(ty, Ext) and ty.name in ("builtins.str", "builtins.object")
            if isinstance(ty, Ref) or isinstance(ty, Ext) and ty.name in ("builtins.list", "builtins.dict", "builtins.tuple", "builtins.set"):
                return False
            return self.th.pred("isinst", x, ty)
        if isinstance(x, Poly) and x.const() is None and not is_int_poly(x) and isinstance(ty, Ext) and (ty.name in ("builtins.int", "builtins.float") or ty.name.startswith("numpy.")):
            # a number of the caller's: python's, numpy's or any other kind
            return self.th.pred("isinst", x, ty)
        t = self.type_of(x)
        if isinstance(t, Ref):
            return ty in self.get(t).meta.mro
        if isinstance(ty, Ext):
            n = ty.name
            if n == "builtins.object" or t == ty:
                return True
            if t.name.startswith("builtins.") and t.name[9:] in EXC_BASES:
                return n[9:] in EXC_BASES[t.name[9:]] if n.startswith("builtins.") else False
            if t.name == "builtins.bool" and n == "builtins.int":
                return True
            if n.startswith("numbers."):
                return is_num(x)
            if n in ("numpy.number", "numpy.floating", "numpy.float64", "numpy.integer"):
                return False
            if n.startswith("collections.abc.") or n.startswith("typing."):
                k = n.rsplit(".", 1)[1]
                kinds = {"builtins.list": {"Iterable", "Sequence", "MutableSequence", "List", "Collection", "Sized"}, "builtins.tuple": {"Iterable", "Sequence", "Collection", "Sized"}, "builtins.dict": {"Iterable", "Mapping", "Collection", "Sized"}, "builtins.set": {"Iterable", "Set", "Collection", "Sized"}, "builtins.str": {"Iterable", "Sequence", "Collection", "Sized"}}
                if k == "Callable":
                    return isinstance(x, (Func, Bound))
                return k in kinds.get(t.name, ())
            return False
        return False

    def getattr(self, o, name, default=ExcLeaf):
        o = self.s(o)
        if type(o) is not Ite:
            return self.getattr_leaf(o, name, default)
        # pure unless a property has to run
        return self.case_pureish(o, lambda x: self.getattr_leaf(x, name, default))

    def case_pureish(self, v, f):
        """case, but avoids forking the state when f neither changes state nor raises"""
        st0 = self.st
        outs = []
        clean = True
        res = []
        for cond, leaf in leaves(v, b_and(st0.pc, self.th.ax)):
            pc = b_and(st0.pc, cond)
            if not self.feasible(pc):
                continue
            self.st = St(pc, dict(st0.heap))
            before = self.st
            keys = dict(self.st.heap)
            try:
                r = f(leaf)
                outs.append((self.st, r))
                res.append((T.vkey(leaf), r))
                if self.st is not before or self.st.heap != keys:
                    clean = False
            except Dead:
                clean = False
        if clean and res:
            self.st = st0
            table, last = dict(res), res[-1][1]
            return self.s(lift(lambda x: table.get(T.vkey(x), last), v))
        return self.merge_all(outs)

    def class_lookup(self, cls, name):
        """(found, value, owner) along the mro of a user class"""
        for c in self.get(cls).meta.mro:
            if isinstance(c, Ref):
                d = self.get(c).d
                if name in d:
                    v = self.s(d[name])
                    if v is not UNBOUND:
                        return True, v, c
        return False, None, None

    def getattr_leaf(self, x, name, default=ExcLeaf):
        if isinstance(x, Ref):
            h = self.get(x)
            if h.kind == "obj":
                if name == "__class__":
                    return h.meta
                if name == "__dict__":
                    return self.alloc(H("dict", AttrsOf(x)))
                cls = h.meta
                if isinstance(cls, Ref):
                    found, v, owner = self.class_lookup(cls, name)
                    if found and isinstance(v, Wrap) and v.kind == "property":
                        return self.call(v.args[0], [x], {})
                    if found and isinstance(v, Ref) and self.get(v).kind == "obj" and self.user_attr(v, "__get__") and (name not in h.d or self.user_attr(v, "__set__")):
                        return self.call(self.getattr_leaf(v, "__get__"), [x, cls], {})
                    if found and isinstance(v, Wrap) and v.kind == "cached":
                        if name in h.d and self.s(h.d[name]) is not UNBOUND:
                            return self.s(h.d[name])
                        r = self.call(v.args[0], [x], {})
                        self.put(x, self.get(x).with_d(name, r))
                        return r
                    if name in h.d:
                        v2 = self.s(h.d[name])
                        if type(v2) is Ite and any(l is UNBOUND for _, l in leaves(v2)):
                            un = self.s(lift(lambda y: y is UNBOUND, v2))

                            def missing():
                                if found:
                                    return self.bind_class_attr(v, x, cls)
                                return self.no_attr(x, name, default)

                            return self.branch(un, missing, lambda: self.s(v2))
                        if v2 is not UNBOUND:
                            return v2
                    if found:
                        return self.bind_class_attr(v, x, cls)
                    if self.user_attr(x, "__getattr__"):
                        return self.call(self.getattr_leaf(x, "__getattr__"), [name], {})
                    for c in self.get(cls).meta.mro:
                        if isinstance(c, Ext) and c.name not in ("builtins.object",):
                            m = self.ext_method(c, x, name)
                            if m is not None:
                                return m
                    if name == "__init__":
                        return Bound(Ext("object.__init__"), x)
                    if name in ("__str__", "__repr__"):
                        return Bound(Ext("object." + name), x)
                    if name == "__dict__":
                        raise Undecided("__dict__")
                else:
                    if name in h.d:
                        return self.bound(h.d[name], "AttributeError", name)
                    if name == "args":
                        return Tup(())
                    if name in ("__cause__", "__context__", "__traceback__"):
                        return None
                    if name == "with_traceback":
                        return Ext("exception.same")
                return self.no_attr(x, name, default)
            if h.kind == "cls":
                found, v, owner = self.class_lookup(x, name)
                if found:
                    if isinstance(v, Wrap):
                        if v.kind == "static":
                            return v.args[0]
                        if v.kind == "classmethod":
                            return Bound(v.args[0], x)
                    return v
                if name in ("__name__",):
                    return h.meta.name
                if name == "__qualname__":
                    return h.meta.qual
                if name == "__members__" and h.meta.members is not None:
                    return self.alloc(H("dict", None, None, [(k, True, v) for k, v in h.d.items() if isinstance(v, Ref) and v in h.meta.members]))
                if name in ("__init__", "__new__"):
                    return Ext("object." + name)
                if name == "__mro__":
                    return Tup(h.meta.mro)
                if name == "__class__":
                    return Ext("builtins.type")
                if name == "__doc__":
                    return None
                if name == "__dict__":
                    return self.alloc(H("dict", AttrsOf(x)))
                return self.no_attr(x, name, default)
            if h.kind == "mod":
                if name == "__dict__":
                    return self.alloc(H("dict", AttrsOf(x)))
                if name in h.d:
                    return self.bound(h.d[name], "AttributeError", name)
                sub = h.meta + "." + name
                if sub in self.mods:
                    return self.mods[sub]
                return self.no_attr(x, name, default)
            if h.kind == "gen":
                if name in ("send", "throw", "close"):
                    raise Undecided("%s() of a generator" % name)
                if name == "__next__":
                    return Bound(Ext("builtins.next"), x)
                if name == "__iter__":
                    return Bound(Ext("builtins.iter"), x)
                return self.no_attr(x, name, default)
            key = h.kind + "." + name
            if h.kind == "elem":
                if name in ("tag",):
                    return h.meta
                if name in ("attrib", "text", "tail"):
                    return h.d.get(name)
            if h.kind == "list" and h.meta == "array" and ("array." + name) in self.models:
                return Bound(Ext("array." + name), x)
            if key in self.models:
                return Bound(Ext(key), x)
            if name in h.d and h.kind not in ("list", "dict", "set"):
                return h.d[name]
            if name == "__class__":
                return self.type_of(x)
            return self.no_attr(x, name, default)
        if isinstance(x, Ext):
            return self.ext_attr(x, name, default)
        if isinstance(x, Wrap):
            if x.kind == "super":
                return self.super_attr(x, name, default)
            if x.kind == "property":
                return Bound(Ext("property." + name), x)
            raise Undecided("attribute of %r" % (x,))
        if is_num(x):
            if name == "real":
                return num(T.split_j(poly(x))[0])
            if name == "imag":
                return num(T.split_j(poly(x))[1])
            if name in ("conjugate", "item", "is_integer", "astype", "bit_length"):
                return Bound(Ext("num." + name), x)
            return self.no_attr(x, name, default)
        if is_text(x):
            if "str." + name in self.models or hasattr(str, name):
                return Bound(Ext("str." + name), x)
            return self.no_attr(x, name, default)
        if isinstance(x, Bytes):
            return Bound(Ext("bytes." + name), x)
        if isinstance(x, Tup):
            if name in ("index", "count"):
                return Bound(Ext("tuple." + name), x)
            return self.no_attr(x, name, default)
        if isinstance(x, Func):
            if name in ("__name__",):
                return x.name
            if name == "__doc__":
                return None
            if name == "__qualname__":
                return x.qual
            return self.no_attr(x, name, default)
        if isinstance(x, Bound):
            if name == "__self__":
                return x.self_
            if name == "__name__" and isinstance(x.fn, Func):
                return x.fn.name
            return self.no_attr(x, name, default)
        if isinstance(x, Fn):
            return Bound(Ext("opaque." + name), x)
        if isinstance(x, Sym):
            if x.kind == "str" :
                return self.getattr_leaf(SStr([x]), name, default)
            if x.kind == "geom":
                return Bound(Ext("geom." + name), x)
            raise Undecided("attribute %s of opaque value %r" % (name, x))
        return self.no_attr(x, name, default)

    def ext_method(self, c, x, name):
        key = "method:%s.%s" % (c.name, name)
        if key in self.models:
            return Bound(Ext(key), x)
        if c.name.startswith("builtins.") and c.name[9:] in EXC_BASES:
            if name == "args":
                return self.get(x).d.get("args", Tup(()))
            if name == "__init__":
                return Bound(Ext("exc.__init__"), x)
            if name == "with_traceback":
                return Bound(Ext("exc.with_traceback"), x)
        return None

    def bind_class_attr(self, v, x, cls):
        if isinstance(v, Func):
            return Bound(v, x)
        if isinstance(v, Wrap):
            if v.kind == "static":
                return v.args[0]
            if v.kind == "classmethod":
                return Bound(v.args[0], cls)
            if v.kind == "property":
                return self.call(v.args[0], [x], {})
            if v.kind == "partial":
                return v
        return v

    def super_attr(self, w, name, default):
        owner, self_ = w.args

        def one(obj):
            h = self.get(obj)
            cls = h.meta if h.kind == "obj" else obj
            mro = self.get(cls).meta.mro
            i = mro.index(owner)
            for c in mro[i + 1:]:
                if isinstance(c, Ref):
                    d = self.get(c).d
                    if name in d:
                        v = d[name]
                        return self.bind_class_attr(v, obj, cls) if h.kind == "obj" else self.getattr_leaf(c, name, default)
                else:
                    m = self.ext_method(c, obj, name)
                    if m is not None:
                        return m
            if name in ("__init__", "__init_subclass__", "__setattr__", "__str__", "__repr__"):
                return Bound(Ext("object." + name), obj)
            if name == "__new__":
                return Ext("object.__new__")
            return self.no_attr(obj, name, default)

        return self.case(self_, one)

    def no_attr(self, x, name, default):
        if isinstance(x, Sym) and default is ExcLeaf:
            raise Undecided("attribute %s of opaque value" % name)
        kind = {"list": list, "dict": dict, "set": set}.get(self.get(x).kind) if isinstance(x, Ref) else tuple if isinstance(x, Tup) else float if is_num(x) else None
        if isinstance(x, Ref) and (self.get(x).kind == "cls" and name in dir(type) or self.get(x).kind in ("cls", "obj") and name in dir(object)):
            raise Undecided(name)
        if kind is not None and (hasattr(kind, name) or kind is float and hasattr(int, name) or kind is dict and name in ("move_to_end", "most_common", "elements", "subtract", "total")):
            raise Undecided("%s.%s" % (kind.__name__, name))
        if default is not ExcLeaf:
            return default
        self.raise_exc("AttributeError", "%s has no attribute %s" % (self.describe(x), name))

    def describe(self, x):
        if isinstance(x, Ref):
            h = self.get(x)
            if h.kind == "obj" and isinstance(h.meta, Ref):
                return self.get(h.meta).meta.name + " object"
            if h.kind == "cls":
                return "class " + h.meta.name
            return h.kind
        return show(x)

    def ext_attr(self, x, name, default):
        full = x.name + "." + name
        if full in self.models:
            v = self.models[full]
            if callable(v):
                return Ext(full)
            return v
        if x.name.startswith("builtins.") and x.name[9:] in EXC_BASES and name == "__name__":
            return x.name[9:]
        if name == "__name__":
            return x.name.rsplit(".", 1)[-1]
        return self.ext(full)

    def setattr(self, o, name, v):
        o = self.s(o)
        if isinstance(o, Ref):
            return self.setattr_leaf(o, name, v)
        if type(o) is Ite and all(isinstance(l, Ref) for _, l in leaves(o)):
            # weak update of each possible target
            plain = True
            for _, l in leaves(o):
                h = self.get(l)
                if h.kind == "obj" and isinstance(h.meta, Ref):
                    f, w, _o = self.class_lookup(h.meta, name)
                    if f and isinstance(w, Wrap) and w.kind == "property" or self.user_attr(l, "__setattr__"):
                        plain = False
                elif h.kind != "cls":
                    plain = False
            if plain:
                for cond, l in leaves(o, self.care()):
                    h = self.get(l)
                    old = h.d.get(name, UNBOUND)
                    self.put(l, h.with_d(name, self.s(ite(cond, v, old)), self.loc()))
                return
        self.case(o, lambda x: self.setattr_leaf(x, name, v))

    def setattr_leaf(self, x, name, v, hook=True):
        if isinstance(x, Ref):
            h = self.get(x)
            if h.kind == "obj" and isinstance(h.meta, Ref):
                f, w, _ = self.class_lookup(h.meta, name)
                if f and isinstance(w, Wrap) and w.kind == "property":
                    if len(w.args) < 2 or w.args[1] is None:
                        self.raise_exc("AttributeError", "can't set attribute " + name)
                    self.call(w.args[1], [x, v], {})
                    return
                if f and isinstance(w, Ref) and self.get(w).kind == "obj" and self.user_attr(w, "__set__"):
                    self.call(self.getattr_leaf(w, "__set__"), [x, v], {})
                    return
                if hook and any(isinstance(c, Ref) and self.get(c).meta.frozen for c in self.get(h.meta).meta.mro):
                    self.raise_exc("AttributeError", "cannot assign to field " + name)
                if hook and self.user_attr(x, "__setattr__"):
                    self.call(self.getattr_leaf(x, "__setattr__"), [name, v], {})
                    return
            if h.kind in ("obj", "cls", "mod", "elem", "file"):
                self.put(x, h.with_d(name, v, self.loc()))
                return
        if isinstance(x, Func):
            return
        if x is None or is_num(x) or is_text(x):
            self.raise_exc("AttributeError", "cannot set attribute " + name)
        raise Undecided("attribute assignment on %r" % (x,))

    # ------------------------------------------------------------------ items
    def concrete_items(self, h):
        """list items when the length is certain, else None"""
        out = []
        for g, v in h.items:
            g = self.s(g)
            if g is False:
                continue
            if g is not True:
                return None
            out.append(v)
        return out

    def list_index(self, h, i):
        items = self.concrete_items(h)
        if items is not None:
            if -len(items) <= i < len(items):
                return items[i]
            raise PyExc("IndexError", "list index out of range")
        slots = [(self.s(g), v) for g, v in h.items]
        if i < 0:
            slots = slots[::-1]
            i = -i - 1
        memo = {}

        def go(j, i):
            if j == len(slots):
                return ExcLeaf("IndexError", "list index out of range")
            if (j, i) in memo:
                return memo[(j, i)]
            g, v = slots[j]
            if g is False:
                r = go(j + 1, i)
            elif g is True:
                r = v if i == 0 else go(j + 1, i - 1)
            else:
                r = ite(g, v if i == 0 else go(j + 1, i - 1), go(j + 1, i))
            memo[(j, i)] = r
            return r

        return go(0, i)

    def getitem(self, o, k):
        o = self.s(o)
        k = self.s(k) if not isinstance(k, Slice) else k
        if isinstance(o, Ref) or type(o) is Ite and self.has_ref(o):
            return self.case_pureish(o, lambda x: self.getitem_obj(x, k)) if type(o) is Ite else self.getitem_obj(o, k)
        if isinstance(k, Slice):
            if any(type(x) is Ite for x in (k.a, k.b, k.c)):
                return self.cases([k.a, k.b, k.c], lambda a, b, c: self.getitem(o, Slice(a, b, c)))
            return self.pure(lambda x: self.slice_leaf(x, k), o)
        return self.pure(self.index_leaf, o, k)

    def slice_leaf(self, x, k):
        if not all(y is None or isinstance(y, int) for y in (k.a, k.b, k.c)):
            raise Undecided("symbolic slice")
        if isinstance(x, Tup):
            return Tup(x.items[slice(k.a, k.b, k.c)])
        if isinstance(x, str):
            return x[slice(k.a, k.b, k.c)]
        if isinstance(x, Bytes):
            return Bytes(x.b[slice(k.a, k.b, k.c)])
        if isinstance(x, SStr):
            return SStr([Fn("slice", (x, k.a, k.b, k.c))])
        if x is None or is_num(x):
            raise PyExc("TypeError", "not subscriptable")
        raise Undecided("slice of %r" % (x,))

    def index_leaf(self, x, k):
        if isinstance(x, Tup) and isinstance(k, int):
            if -len(x.items) <= k < len(x.items):
                return x.items[k]
            raise PyExc("IndexError", "tuple index out of range")
        if isinstance(x, str) and isinstance(k, int):
            try:
                return x[k]
            except IndexError:
                raise PyExc("IndexError", "string index out of range")
        if isinstance(x, Tup) and (k is None or is_text(k)):
            raise PyExc("TypeError", "tuple indices must be integers")
        if x is None or is_num(x):
            raise PyExc("TypeError", "not subscriptable")
        if isinstance(x, Fn):
            return Fn("item", (x, k))
        if isinstance(x, SStr):
            return SStr([Fn("item", (x, k))])
        if isinstance(x, Ext):
            return x
        raise Undecided("subscript of %r" % (x,))

    def getitem_obj(self, x, k):
        if not isinstance(x, Ref):
            return self.getitem(x, k)
        h = self.get(x)
        if h.kind == "list" and h.meta in ("iter", "keys", "values"):
            self.raise_exc("TypeError", "not subscriptable")
        if h.kind in ("list", "elem"):
            if isinstance(k, Slice):
                if any(type(y) is Ite for y in (k.a, k.b, k.c)):
                    return self.cases([k.a, k.b, k.c], lambda a, b, c: self.getitem_obj(x, Slice(a, b, c)))
                return self.list_slice(x, k)
            if h.meta == "array" and isinstance(self.s(k), Tup):
                v = x
                for kk in k.items:
                    v = self.getitem(v, kk)
                return v

            def f(i):
                if isinstance(i, bool):
                    i = int(i)
                if isinstance(i, int):
                    return self.list_index(h, i)
                if i is None or is_text(i) or isinstance(i, (Tup, Fraction, Ref)):
                    raise PyExc("TypeError", "list indices must be integers")
                raise Undecided("symbolic list index")

            return self.pure(f, k)
        if h.kind == "dict":
            return self.dict_get(x, k, None, True)
        if h.kind == "cls" and h.meta.members is not None:
            def byname(nm):
                for m in h.meta.members:
                    if same(self.get(m).d["name"], nm):
                        return m
                v = h.d.get(nm) if isinstance(nm, str) else None
                if isinstance(v, Ref) and v in h.meta.members:
                    return v
                raise PyExc("KeyError", str(nm))

            return self.pure(byname, k)
        if h.kind == "cls":
            return x
        if h.kind == "obj" and self.user_attr(x, "__getitem__"):
            return self.call(self.getattr_leaf(x, "__getitem__"), [k if not isinstance(k, Slice) else k], {})
        self.raise_exc("TypeError", "object is not subscriptable")

    def list_slice(self, x, k):
        h = self.get(x)
        if not all(y is None or isinstance(y, int) for y in (k.a, k.b, k.c)):
            raise Undecided("symbolic slice")
        items = self.concrete_items(h)
        if items is not None:
            return self.alloc(H("list", h.meta if h.meta == "array" else None, None, [(True, v) for v in items[slice(k.a, k.b, k.c)]]))
        if k.a is None and k.b is None and k.c in (None, -1):
            return self.alloc(H("list", None, None, h.items if k.c is None else h.items[::-1]))
        return self.split_list(x, lambda: self.list_slice(x, k))

    def split_list(self, x, f):
        """fork until the list has a certain length, then run f"""
        for g, _ in self.get(x).items:
            g = self.s(g)
            if g is not True and g is not False:
                return self.branch(g, lambda: self.split_list(x, f), lambda: self.split_list(x, f))
        h = self.get(x)
        self.put(x, h.with_items([e for e in h.items if self.s(e[0]) is True]))
        return f()

    def split_dict(self, x, f):
        for k, g, v in self.get(x).items:
            g = self.s(g)
            if g is not True and g is not False:
                return self.branch(g, lambda: self.split_dict(x, f), lambda: self.split_dict(x, f))
        h = self.get(x)
        self.put(x, h.with_items([(k, True, v) for k, g, v in h.items if self.s(g) is True]))
        return f()

    def dict_get(self, x, k, default, strict):
        def one(kk):
            self.hashable(kk)
            h = self.get(x)
            r = ExcLeaf("KeyError", kk if isinstance(kk, (str, int)) else show(kk)) if strict else default
            miss = True
            for key, g, v in reversed(h.items):
                c = b_and(g, self.pure(self.eq_leaf, kk, key))
                r = ite(c, v, r)
            if strict and h.meta is not None and type(h.meta) is not AttrsOf:
                found = False
                for key, g, v in h.items:
                    found = b_or(found, b_and(g, self.pure(self.eq_leaf, kk, key)))

                def make():
                    v = self.call(h.meta, [], {})
                    self.setitem(x, kk, v)
                    return v

                return self.branch(found, lambda: self.settle(r), make)
            return self.settle(r)

        return self.case_pureish(k, one) if type(k) is Ite else one(k)

    def hashable(self, k):
        if isinstance(k, Ref) and self.get(k).kind in ("list", "dict", "set"):
            self.raise_exc("TypeError", "unhashable type")

    def setitem(self, o, k, v):
        def one(x):
            if isinstance(x, Ref):
                h = self.get(x)
                if h.kind == "dict":
                    return self.case(k, lambda kk: self.dict_set(x, kk, self.s(v)))
                if h.kind == "list":
                    if isinstance(k, Slice):
                        def sl():
                            hh = self.get(x)
                            items = [e[1] for e in hh.items]
                            if not all(y is None or isinstance(y, int) for y in (k.a, k.b, k.c)):
                                raise Undecided("symbolic slice")
                            items[slice(k.a, k.b, k.c)] = self.seq(self.s(v))
                            self.put(x, hh.with_items([(True, e) for e in items]))

                        return self.split_list(x, sl)

                    def seti(i):
                        if isinstance(i, bool):
                            i = int(i)
                        if not isinstance(i, int):
                            if i is None or is_text(i):
                                self.raise_exc("TypeError", "list indices must be integers")
                            raise Undecided("symbolic list index")

                        def do():
                            hh = self.get(x)
                            n = len(hh.items)
                            j = i + n if i < 0 else i
                            if not 0 <= j < n:
                                self.raise_exc("IndexError", "list assignment index out of range")
                            items = list(hh.items)
                            items[j] = (True, self.s(v))
                            self.put(x, hh.with_items(items))

                        return self.split_list(x, do)

                    return self.case(k, seti)
                if h.kind == "obj" and self.user_attr(x, "__setitem__"):
                    return self.call(self.getattr_leaf(x, "__setitem__"), [k, v], {})
            if isinstance(x, Tup):
                self.raise_exc("TypeError", "'tuple' object does not support item assignment")
            if x is None:
                self.raise_exc("TypeError", "item assignment on None")
            raise Undecided("item assignment on %r" % (x,))

        self.case(o, one)

    def dict_set(self, x, k, v):
        self.hashable(k)
        h = self.get(x)
        out = []
        found = False
        for key, g, old in h.items:
            e = self.pure(self.eq_leaf, k, key)
            c = b_and(g, e)
            found = b_or(found, c)
            out.append((key, g, self.s(ite(c, v, old)) if c is not True else v))
        g = self.s(b_not(found))
        if g is not False:
            # an absent slot with the very same key may be reused only if nothing was inserted after it
            if out and same(out[-1][0], k):
                key, g0, old = out[-1]
                out[-1] = (key, self.s(b_or(g0, g)), self.s(ite(b_and(g0, True), old, v)))
            else:
                out.append((k, g, v))
        locs = h.locs
        if isinstance(k, str):
            locs = dict(locs)
            locs[k] = self.loc()
        self.put(x, H(h.kind, h.meta, h.d, out, locs))

    def delitem(self, x, k):
        if not isinstance(x, Ref):
            self.raise_exc("TypeError", "item deletion")
        h = self.get(x)
        if h.kind == "dict":
            def do():
                hh = self.get(x)
                for i, (key, g, v) in enumerate(hh.items):
                    e = self.pure(self.eq_leaf, k, key)
                    if e is True:
                        self.put(x, hh.with_items(hh.items[:i] + hh.items[i + 1:]))
                        return v
                    if e is not False:
                        raise Undecided("deletion of unknown key")
                self.raise_exc("KeyError", k)

            return self.split_dict(x, do)
        if h.kind == "list":
            def dol():
                hh = self.get(x)
                items = [e[1] for e in hh.items]
                kk = slice(k.a, k.b, k.c) if isinstance(k, Slice) else k
                if not isinstance(kk, (int, slice)):
                    raise Undecided("symbolic list index")
                try:
                    del items[kk]
                except IndexError:
                    self.raise_exc("IndexError", "list assignment index out of range")
                self.put(x, hh.with_items([(True, e) for e in items]))

            return self.split_list(x, dol)
        raise Undecided("item deletion")

    def dict_update(self, r, v):
        def one(x):
            if isinstance(x, Ref) and self.get(x).kind == "dict":
                for key, g, val in self.get(x).items:
                    self.branch(g, lambda key=key, val=val: self.dict_set(r, key, self.s(val)), lambda: None)
                return
            for g, pair in self.iterate(x):
                def put(pair=pair):
                    self.with_seq(pair, lambda p: self.setitem(r, p[0], p[1]))

                self.branch(g, put, lambda: None)

        self.case(v, one)

    def set_add(self, r, v):
        def one(k):
            h = self.get(r)
            found = False
            for key, g, _ in h.items:
                found = b_or(found, b_and(g, self.pure(self.eq_leaf, k, key)))
            g = self.s(b_not(found))
            if g is not False:
                self.put(r, h.with_items(h.items + ((k, g, None),)))

        self.case(v, one)

    def list_append(self, x, v):
        h = self.get(x)
        locs = dict(h.locs)
        locs[len(h.items)] = self.loc()
        self.put(x, h.with_items(h.items + ((True, v),), locs))

    def list_extend(self, x, v):
        for g, e in list(self.iterate(v)):
            h = self.get(x)
            g = self.s(g)
            if g is not False:
                self.put(x, h.with_items(h.items + ((g, e),)))

    # ------------------------------------------------------------------ iteration
    def iterate(self, v, temp=False):
        """yields (guard, value); list iteration is live; temp: nobody else holds the iterator"""
        v = self.s(v)
        if type(v) is Ite:
            ls = [(c, l) for c, l in leaves(v, self.care())]
            for c, l in ls:
                if isinstance(l, Ref) and self.get(l).kind == "gen":
                    self.branch(c, lambda l=l: self.force(l) and None, lambda: None)
            # iterate over each possible container under its condition
            for c, l in ls:
                for g, e in self.iterate(l):
                    yield b_and(c, g), e
            return
        if isinstance(v, Tup):
            for e in v.items:
                yield True, e
            return
        if isinstance(v, str):
            for ch in v:
                yield True, ch
            return
        if isinstance(v, Ref):
            h = self.get(v)
            if h.kind == "gen":
                self.force(v)
                h = self.get(v)
                temp = False
            if h.kind == "list" and h.meta == "iter" and not temp:
                while True:
                    h = self.get(v)
                    if not h.items:
                        return
                    g, e = h.items[0]
                    self.put(v, h.with_items(h.items[1:]))
                    g = self.s(g)
                    if g is not False:
                        yield g, e
            if h.kind in ("list", "elem"):
                i = 0
                start = h.items
                while True:
                    h = self.get(v) if (v.a in self.st.heap or v.a in self.base) else None
                    if h is None or i >= len(h.items):
                        return
                    if len(h.items) < len(start):
                        raise Undecided("list shrinks while iterated")
                    if i > 400:
                        raise Undecided("list grows without bound while iterated")
                    g, e = h.items[i]
                    i += 1
                    g = self.s(g)
                    if g is not False:
                        yield g, e
                return
            if h.kind in ("dict", "set"):
                snap = h.items
                if h.kind == "set" and self.set_rev and any(not is_num(k) for k, _, _ in snap):
                    order = tuple(reversed(snap))
                else:
                    order = snap
                for k, g, _ in order:
                    g = self.s(g)
                    if g is not False:
                        yield g, k
                h2 = self.get(v)
                if h2.items is not snap and [vkey(e[0]) for e in h2.items] != [vkey(e[0]) for e in snap]:
                    extra = False
                    for e in h2.items[len(snap):]:
                        extra = b_or(extra, e[1])
                    if self.s(extra) is not False:
                        raise Undecided("dictionary changes size during iteration")
                return
            if h.kind == "cls" and h.meta.members is not None:
                for m in h.meta.members:
                    yield True, m
                return
            if h.kind == "obj" and self.user_attr(v, "__iter__"):
                it = self.s(self.call(self.getattr_leaf(v, "__iter__"), [], {}))
                if isinstance(it, Ref) and self.get(it).kind == "obj" and self.user_attr(it, "__next__"):
                    yield from self.protocol(it)
                    return
                if it is v:
                    raise Undecided("iterator protocol")
                yield from self.iterate(it)
                return
            if h.kind == "obj" and self.user_attr(v, "__next__"):
                self.raise_exc("TypeError", "object is not iterable")
        if v is None or is_num(v) or (isinstance(v, Ref) and self.get(v).kind == "obj"):
            self.raise_exc("TypeError", "object is not iterable")
        raise Undecided("iteration over %r" % (v,))

    def protocol(self, it):
        """the elements an object with a __next__ method hands out"""
        for k in range(400):
            sink = []
            self.sinks.append(sink)
            end = False
            try:
                x = self.call(self.getattr_leaf(it, "__next__"), [], {})
            except Dead:
                end = True
            finally:
                self.sinks.pop()
            stop = [st for st, e in sink if self.get_in(st, e).meta == Ext("builtins.StopIteration")]
            if len(stop) != len(sink) or len(stop) > 1 or (stop and not end):
                raise Undecided("iterator protocol")
            if end:
                if not stop:
                    raise Dead
                self.st = stop[0]
                return
            yield True, x
        raise Undecided("iterator that does not end")

    def get_in(self, st, ref):
        return st.heap.get(ref.a) or self.base.get(ref.a)

    def seq(self, v):
        """python list of values of a sequence of certain length"""
        v = self.s(v)
        if type(v) is Ite:
            raise Undecided("sequence of conditional shape")
        out = []
        for g, e in self.iterate(v):
            g = self.s(g)
            if g is False:
                continue
            if g is not True:
                raise Undecided("sequence of uncertain length")
            out.append(e)
        return out

    def with_seq(self, v, f):
        """f applied to the elements of a sequence, in each of its possible lengths"""
        v = self.s(v)
        if type(v) is Ite:
            return self.case(v, lambda x: self.with_seq(x, f))
        items = list(self.iterate(v))

        def go(i, out):
            while i < len(items):
                g = self.s(items[i][0])
                if g is not True and g is not False:
                    return self.branch(g, lambda: go(i + 1, out + [items[i][1]]), lambda: go(i + 1, out))
                if g is True:
                    out = out + [items[i][1]]
                i += 1
            return f(out)

        return go(0, [])

    def with_stars(self, parts, f):
        """f applied to the values of a display or call in which some parts are sequences to be spread"""
        def go(i, out):
            while i < len(parts):
                star, v = parts[i]
                i += 1
                if star:
                    return self.with_seq(v, lambda xs, i=i, out=out: go(i, out + xs))
                out = out + [v]
            return f(out)

        return go(0, [])

    def length(self, v):
        def one(x):
            if isinstance(x, Tup):
                return len(x.items)
            if isinstance(x, str):
                return len(x)
            if isinstance(x, Bytes):
                return len(x.b)
            if isinstance(x, Ref):
                h = self.get(x)
                if h.kind in ("list", "dict", "set", "elem"):
                    if h.meta == "iter":
                        self.raise_exc("TypeError", "iterator has no len()")
                    r = 0
                    for e in h.items:
                        g = e[0] if h.kind in ("list", "elem") else e[1]
                        g = self.s(g)
                        if g is False:
                            continue
                        if g is True:
                            r = lift(lambda n: n + 1, r)
                        else:
                            r = lift(lambda n, b: n + 1 if b else n, r, g)
                    return self.s(r)
                if h.kind == "cls" and h.meta.members is not None:
                    return len(h.meta.members)
                if h.kind == "obj" and self.user_attr(x, "__len__"):
                    return self.call(self.getattr_leaf(x, "__len__"), [], {})
                self.raise_exc("TypeError", "object has no len()")
            if isinstance(x, SStr):
                return num(T.pfn("strlen", x))
            if x is None or is_num(x):
                self.raise_exc("TypeError", "object has no len()")
            raise Undecided("len of %r" % (x,))

        return self.case_pureish(v, one) if type(self.s(v)) is Ite else one(self.s(v))

    # ------------------------------------------------------------------ calls
    def call(self, f, args, kwargs):
        f = self.s(f)
        if type(f) is Ite:
            return self.case(f, lambda g: self.call(g, args, kwargs))
        if isinstance(f, Func):
            return self.call_func(f, args, kwargs)
        if isinstance(f, Bound):
            if isinstance(f.fn, Func):
                return self.call_func(f.fn, [f.self_] + list(args), kwargs)
            return self.call(f.fn, [f.self_] + list(args), kwargs)
        if isinstance(f, Ref):
            h = self.get(f)
            if h.kind == "cls":
                return self.instantiate(f, args, kwargs)
            if h.kind == "obj" and self.user_attr(f, "__call__"):
                return self.call(self.getattr_leaf(f, "__call__"), args, kwargs)
            self.raise_exc("TypeError", "object is not callable")
        if isinstance(f, Ext):
            return self.call_ext(f, args, kwargs)
        if isinstance(f, Wrap):
            if f.kind == "partial":
                fn, pa, pk = f.args
                kw = dict(pk)
                kw.update(kwargs)
                return self.call(fn, list(pa) + list(args), kw)
            if f.kind in ("static",):
                return self.call(f.args[0], args, kwargs)
            if f.kind == "cachedfn":
                return self.call(f.args[0], args, kwargs)
            if f.kind == "getter":
                return self.models["getter"](self, f, args)
        if isinstance(f, (Sym, Fn)):
            raise Undecided("call of opaque value %r" % (f,))
        self.raise_exc("TypeError", "%s is not callable" % show(f))

    LAZY = {"builtins." + x for x in "iter next any all enumerate map filter isinstance type id print bool str repr callable hasattr getattr".split()} | {"sa.ctxmgr"}

    def call_ext(self, f, args, kwargs):
        m = self.models.get(f.name)
        if f.name not in self.LAZY:
            for x in args:
                if isinstance(x, Ref) and self.get(x).kind == "gen":
                    self.force(x)
        if m is None or not callable(m):
            n = f.name
            if n.startswith("builtins.") and n[9:] in EXC_BASES:
                return self.alloc(H("obj", f, {"args": Tup(args)}))
            if n.startswith("str."):
                return self.models["str.*"](self, n[4:], args, kwargs)
            if n.startswith("opaque."):
                return self.models["opaque.*"](self, n[7:], args, kwargs)
            if n.startswith("geom."):
                return self.models["geom.*"](self, n[5:], args, kwargs)
            if n.startswith("warnings.") or n.startswith("logging."):
                return self.models["logging.*"](self, n, args, kwargs)
            raise Undecided("call of unmodelled external %s at %r" % (f.name, self.loc()))
        return m(self, args, kwargs)

    def instantiate(self, cls, args, kwargs):
        info = self.get(cls).meta
        if info.members is not None:
            return self.case(args[0], lambda v: self.enum_by_value(cls, v))
        found, v, _ = self.class_lookup(cls, "__new__")
        if found:
            v = v.args[0] if isinstance(v, Wrap) and v.kind == "static" else v
            obj = self.call(v, [cls] + list(args), kwargs)

            def init(o):
                if isinstance(o, Ref) and self.get(o).kind == "obj" and isinstance(self.get(o).meta, Ref) and cls in self.get(self.get(o).meta).meta.mro:
                    found, f, _ = self.class_lookup(self.get(o).meta, "__init__")
                    if found:
                        self.call(self.bind_class_attr(f, o, self.get(o).meta), args, kwargs)

            self.case(obj, init)
            return self.s(obj)
        obj = self.alloc(H("obj", cls, {}))
        found, init, _ = self.class_lookup(cls, "__init__")
        exc = any(isinstance(c, Ext) and c.name == "builtins.BaseException" for c in info.mro)
        if exc:
            self.put(obj, self.get(obj).with_d("args", Tup(args)))
        if found:
            r = self.call(self.bind_class_attr(init, obj, cls), args, kwargs)
        elif exc:
            pass
        elif info.dataclass is not None:
            self.init_dataclass(obj, info, args, kwargs)
        else:
            for c in info.mro:
                if isinstance(c, Ext) and "method:%s.__init__" % c.name in self.models:
                    self.call(Ext("method:%s.__init__" % c.name), [obj] + list(args), kwargs)
                    return obj
                if isinstance(c, Ext) and c.name not in ("builtins.object", "abc.ABC", "typing.Generic", "typing.Protocol"):
                    raise Undecided("instance of subclass of " + c.name)
            if args or kwargs:
                self.raise_exc("TypeError", "%s() takes no arguments" % info.name)
        return obj

    def enum_by_value(self, cls, v):
        h = self.get(cls)
        for m in h.meta.members:
            if v is m or same(self.get(m).d["value"], v):
                return m
        self.raise_exc("ValueError", "%s is not a valid %s" % (show(v), h.meta.name))

    def init_dataclass(self, obj, info, args, kwargs):
        fields = info.dataclass
        args = list(args)
        kwargs = dict(kwargs)
        for name, has, dv in fields:
            if args:
                v = args.pop(0)
            elif name in kwargs:
                v = kwargs.pop(name)
            elif has == "factory":
                v = self.call(dv, [], {})
            elif has:
                v = dv
            else:
                self.raise_exc("TypeError", "missing argument " + name)
            self.setattr_leaf(obj, name, v, False)
        if args or kwargs:
            self.raise_exc("TypeError", "unexpected argument")
        if self.user_attr(obj, "__post_init__"):
            self.call(self.getattr_leaf(obj, "__post_init__"), [], {})

    def bind(self, f, args, kwargs):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        kwargs = dict(kwargs)
        if len(args) > len(pos) and not a.vararg:
            self.raise_exc("TypeError", "%s() takes %d positional arguments but %d were given" % (f.qual, len(pos), len(args)))
        for name, v in zip(pos, args):
            out[name] = v
        if a.vararg:
            out[a.vararg.arg] = Tup(args[len(pos):])
        nd = len(f.defaults)
        kwonly = [x.arg for x in a.kwonlyargs]
        extra = {}
        ponly = {x.arg for x in a.posonlyargs}
        for k, v in kwargs.items():
            if k in out and k in pos and k not in ponly:
                self.raise_exc("TypeError", "%s() got multiple values for argument '%s'" % (f.qual, k))
            if (k in pos and k not in ponly) or k in kwonly:
                out[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                self.raise_exc("TypeError", "%s() got an unexpected keyword argument '%s'" % (f.qual, k))
        for i, name in enumerate(pos):
            if name not in out:
                j = i - (len(pos) - nd)
                if j >= 0:
                    out[name] = f.defaults[j]
                else:
                    self.raise_exc("TypeError", "%s() missing required argument '%s'" % (f.qual, name))
        kd = dict(f.kwdefaults)
        for name in kwonly:
            if name not in out:
                if name in kd:
                    out[name] = kd[name]
                else:
                    self.raise_exc("TypeError", "%s() missing keyword argument '%s'" % (f.qual, name))
        if a.kwarg:
            out[a.kwarg.arg] = self.alloc(H("dict", None, None, [(k, True, v) for k, v in extra.items()]))
        return out

    def call_func(self, f, args, kwargs):
        if len(self.ctx) > self.MAXDEPTH:
            raise Undecided("recursion deeper than %d in %s" % (self.MAXDEPTH, f.qual))
        vars_ = self.bind(f, args, kwargs)
        if not f.file.startswith("<"):
            self.analysed[(f.file, f.qual)] = f.node.lineno
        fr = self.alloc(H("frame", (f.closure.a, f.mod, "func", f.qual), vars_))
        if f.isgen:
            self.captured.add(fr.a)
            return self.new_gen(lambda go: self.run_func(f, fr, go))
        return self.run_func(f, fr)

    def run_func(self, f, fr, consumer=None):
        c = Ctx(fr, f, f.mod)
        c.consumer = consumer
        line = self.line
        self.ctx.append(c)
        nctx = len(self.ctx)
        nsink = len(self.sinks)
        try:
            if isinstance(f.node, ast.Lambda):
                v = self.ev(f.node.body)
                c.rets.append((self.st, v))
            else:
                self.line = f.node.lineno
                self.block(f.node.body)
                c.rets.append((self.st, None))
        except Dead:
            pass
        finally:
            del self.ctx[nctx - 1:]
            del self.sinks[nsink:]
            self.line = line
        v = self.merge_all(c.rets)
        if fr.a not in self.captured:
            self.st.heap.pop(fr.a, None)
        return v


class ClassInfo:
    __slots__ = ("name", "qual", "bases", "file", "mro", "ref", "members", "dataclass", "frame", "ordered", "plain_eq", "frozen")

    def __init__(self, name, qual, bases, file):
        self.name, self.qual, self.bases, self.file = name, qual, bases, file
        self.mro, self.ref, self.members, self.dataclass, self.frame = (), None, None, None, None
        self.ordered = False
        self.plain_eq = True
        self.frozen = False

    def __repr__(self):
        return "<class %s>" % self.name


class Run:
    """outcome of interpreting scenario code"""

    def __init__(self, I, mod, end, raised):
        self.I, self.mod, self.end = I, mod, end
        self.raised = [(s, v) for s, v in raised if I.feasible(s.pc)]
        self.pc = end.pc if end is not None else False

    def use(self):
        """make the normal end state current (for inspecting values)"""
        if self.end is None:
            raise Undecided("scenario never ends normally: " + "; ".join(self.raise_text()))
        self.I.st = self.end
        return self

    def __getitem__(self, name):
        self.I.st = self.end
        return self.I.s(self.I.get(self.mod).d[name])

    def excs(self):
        """[(condition, class name, state, value)] of uncaught exceptions"""
        out = []
        for s, v in self.raised:
            self.I.st = s
            for c, leaf in leaves(v, b_and(s.pc, self.I.th.ax)):
                out.append((c, self.exc_name(leaf), s, leaf))
        return out

    def exc_name(self, leaf):
        m = self.I.get(leaf).meta
        if isinstance(m, Ref):
            return self.I.get(m).meta.name
        return m.name.split(".")[-1]

    def exc_isa(self, leaf, name):
        m = self.I.get(leaf).meta
        if isinstance(m, Ref):
            return any((self.I.get(c).meta.name if isinstance(c, Ref) else c.name.split(".")[-1]) == name for c in self.I.get(m).meta.mro)
        return name in EXC_BASES.get(m.name.split(".")[-1], ())

    def raise_cond(self, pred=None):
        r = False
        for c, n, s, leaf in self.excs():
            if pred is None or pred(n, leaf):
                r = b_or(r, c)
        return simp(r, self.I.th.ax)

    def raise_text(self):
        out = []
        for c, n, s, leaf in self.excs()[:6]:
            self.I.st = s
            a = self.I.get(leaf).d.get("args")
            out.append("%s%s when %s" % (n, show(a) if a is not None else "", T.one_path(c)))
        return out
