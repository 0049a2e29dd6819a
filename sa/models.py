"""Models of builtins and of the external libraries the analysed package uses."""
import posixpath
from fractions import Fraction

from . import terms as T
from .terms import (
    UNBOUND, Fn, Ite, Poly, Ref, SStr, StrOf, Sym, Tup, Undecided, b_and, b_not, b_or, ite, leaves, lift, num, padd,
    pdiv, pmul, pneg, poly, ppow, psub, same, show, sstr, vkey,
)
from .interp import H, AttrsOf, Bound, Bytes, Dead, EXC_BASES, Ext, Func, PyExc, Slice, Wrap, is_num, is_text, is_int_poly, num_bin, tstr

BUILTIN_NAMES = {}
for _n in (
    "print len range str repr int float bool abs min max sum any all list tuple dict set frozenset sorted reversed enumerate zip map filter "
    "isinstance issubclass hasattr getattr setattr delattr type id iter next round divmod pow super object staticmethod classmethod property "
    "callable vars format complex open ord chr bytes bytearray hash slice NotImplemented locals globals dir input exec eval __import__"
).split():
    BUILTIN_NAMES[_n] = Ext("builtins." + _n)
BUILTIN_NAMES["__name__"] = "__main__"
BUILTIN_NAMES["__debug__"] = True

M = {}


def model(*names):
    def deco(f):
        for n in names:
            M[n] = f
        return f

    return deco


def build(I):
    return M


def arg(args, kw, i, name, default=None):
    if i < len(args):
        return args[i]
    return kw.get(name, default)


# ------------------------------------------------------------------ output, no effect on the model
@model("builtins.print", "pprint.pprint")
def _print(I, a, k):
    for x in a:
        if "file" in k:
            raise Undecided("print to file")
        I.to_str(x)
    return None


@model("logging.*")
def _log(I, n, a, k):
    if n.endswith("getLogger"):
        return Ext("logging.logger")
    return None


for _n in ("debug", "info", "warning", "error", "critical", "exception", "basicConfig", "setLevel", "addHandler"):
    M["logging." + _n] = lambda I, a, k: None
    M["logging.logger." + _n] = lambda I, a, k: None
M["warnings.warn"] = lambda I, a, k: None
M["warnings.simplefilter"] = M["warnings.filterwarnings"] = lambda I, a, k: None


# ------------------------------------------------------------------ conversions
@model("builtins.len")
def _len(I, a, k):
    return I.length(a[0])


@model("builtins.str")
def _str(I, a, k):
    if not a:
        return ""
    if len(a) > 1 or k:
        return I.call(I.getattr(a[0], "decode"), list(a[1:]), k)
    return I.to_str(a[0])


@model("builtins.repr", "builtins.ascii")
def _repr(I, a, k):
    return I.to_repr(a[0])


@model("builtins.format")
def _format(I, a, k):
    return I.format(a[0], a[1] if len(a) > 1 else "")


@model("builtins.bool")
def _bool(I, a, k):
    return I.truth(a[0]) if a else False


@model("builtins.int")
def _int(I, a, k):
    def f(x):
        if isinstance(x, bool):
            return int(x)
        if isinstance(x, int):
            return x
        if isinstance(x, Fraction):
            return int(x)
        if isinstance(x, Poly):
            if is_int_poly(x):
                return x
            return num(T.pfn("int", x))
        if isinstance(x, str):
            try:
                return int(x)
            except ValueError:
                raise PyExc("ValueError", "invalid literal for int(): %r" % x)
        if isinstance(x, SStr) and len(x.parts) == 1 and isinstance(x.parts[0], StrOf) and is_num(x.parts[0].v):
            return f(x.parts[0].v)
        if x is None or isinstance(x, (Tup, Ref)):
            raise PyExc("TypeError", "int() argument")
        raise Undecided("int of %r" % (x,))

    return I.pure(f, a[0]) if a else 0


def _no_number(x):
    """a text that is certainly not that of a number"""
    if not isinstance(x, SStr):
        return False
    for q in x.parts:
        if isinstance(q, Fn) and q.name == "address":
            return True
        if isinstance(q, str) and any(c.isalpha() and c.lower() not in "einfatyx" for c in q):
            return True
    return False


@model("builtins.float", "numpy.float64", "numpy.float32", "numpy.double", "numpy.asscalar")
def _float(I, a, k):
    def f(x):
        if isinstance(x, bool):
            return int(x)
        if is_num(x):
            return x
        if isinstance(x, str):
            try:
                return T._norm(Fraction(x.strip()))
            except (ValueError, ZeroDivisionError):
                raise PyExc("ValueError", "could not convert string to float")
        if isinstance(x, SStr) and len(x.parts) == 1 and isinstance(x.parts[0], StrOf) and is_num(x.parts[0].v):
            return x.parts[0].v
        if x is None or isinstance(x, (Tup, Ref)):
            raise PyExc("TypeError", "float() argument")
        if isinstance(x, Sym) and x.kind in ("id", "str"):
            raise PyExc("ValueError", "could not convert string to float")
        if _no_number(x):
            raise PyExc("ValueError", "could not convert string to float")
        raise Undecided("float of %r" % (x,))

    return I.pure(f, a[0]) if a else 0


@model("builtins.complex")
def _complex(I, a, k):
    im = a[1] if len(a) > 1 else 0
    return I.pure(lambda x, y: num(padd(poly(x), pmul(T.J, poly(y)))), a[0], im)


@model("builtins.abs", "numpy.abs", "numpy.absolute", "numpy.fabs", "math.fabs")
def _abs(I, a, k):
    def f(x):
        if is_num(x):
            p = poly(x)
            re, im = T.split_j(p)
            if im.t:
                return num(ppow(padd(pmul(re, re), pmul(im, im)), Fraction(1, 2)))
            return num(T.pabs(p))
        if isinstance(x, (Sym, Fn)):
            raise Undecided("abs of opaque value")
        raise PyExc("TypeError", "bad operand type for abs()")

    return I.pure(f, a[0])


@model("builtins.round", "numpy.round", "numpy.around")
def _round(I, a, k):
    nd = arg(a, k, 1, "ndigits", arg(a, k, 1, "decimals"))

    def f(x, n):
        if not is_num(x):
            raise PyExc("TypeError", "round()")
        p = poly(x)
        if p.const() is not None and (n is None or isinstance(n, int)):
            return round(x, n) if n is not None else int(round(p.const()))
        if is_int_poly(p) and n is None:
            return x
        return num(T.pfn("round", p, poly(n if isinstance(n, int) else 0)))

    return I.pure(f, a[0], nd)


def _minmax(I, a, k, mx):
    if len(a) == 1:
        items = list(I.iterate(a[0]))
    else:
        items = [(True, x) for x in a]
    if "key" in k:
        key = k["key"]
    else:
        key = None
    cur = curk = UNBOUND
    have = False
    for g, x in items:
        g = I.s(g)
        kx = I.branch(g, lambda: I.call(key, [x], {}), lambda: UNBOUND) if key is not None else x
        if have is False:
            cur, curk, have = x, kx, g
            continue
        c = I.s(b_not(have))
        less = I.branch(b_and(g, have), lambda: I.order(simp_now(I, curk), simp_now(I, kx)) if mx else I.order(simp_now(I, kx), simp_now(I, curk)), lambda: c)
        c = b_and(g, less)
        cur, curk, have = I.s(ite(c, x, cur)), I.s(ite(c, kx, curk)), I.s(b_or(have, g))
    if have is True:
        return cur

    def empty():
        if "default" in k:
            return k["default"]
        I.raise_exc("ValueError", "min()/max() arg is an empty sequence")

    return I.branch(have, lambda: simp_now(I, cur), empty)


def simp_now(I, v):
    return T.simp(v, I.care()) if type(v) is Ite else v


@model("builtins.max", "numpy.maximum", "numpy.fmax", "numpy.max", "numpy.amax")
def _max(I, a, k):
    return _minmax(I, a, k, True)


@model("builtins.min", "numpy.minimum", "numpy.fmin", "numpy.min", "numpy.amin")
def _min(I, a, k):
    return _minmax(I, a, k, False)


@model("builtins.sum", "math.fsum", "numpy.sum")
def _sum(I, a, k):
    acc = arg(a, k, 1, "start", 0)
    for g, x in I.iterate(a[0]):
        acc = I.s(ite(g, I.branch(g, lambda: I.binop("+", acc, x), lambda: acc), acc)) if I.s(g) is not True else I.binop("+", acc, x)
    return acc


@model("numpy.cumsum")
def _cumsum(I, a, k):
    out = []
    acc = None
    for x in I.seq(a[0]):
        acc = x if acc is None else I.binop("+", acc, x)
        out.append(acc)
    return I.new_list(out)


def is_gen(I, v):
    return isinstance(v, Ref) and I.get(v).kind == "gen"


@model("builtins.any")
def _any(I, a, k):
    g = I.s(a[0])
    if is_gen(I, g) and not I.force_quietly(g):
        return I.first(g, lambda v: (I.truth(v), True), lambda: False)
    r = False
    for g, x in I.iterate(a[0]):
        r = b_or(r, b_and(g, I.branch(g, lambda x=x: I.truth(x), lambda: False)))
    return I.s(r)


@model("builtins.all")
def _all(I, a, k):
    g = I.s(a[0])
    if is_gen(I, g) and not I.force_quietly(g):
        return I.first(g, lambda v: (b_not(I.truth(v)), False), lambda: True)
    r = True
    for g, x in I.iterate(a[0]):
        r = b_and(r, I.branch(g, lambda x=x: I.truth(x), lambda: True))
    return I.s(r)


@model("builtins.pow", "math.pow", "numpy.power")
def _pow(I, a, k):
    return I.binop("**", a[0], a[1])


@model("builtins.divmod")
def _divmod(I, a, k):
    return Tup([I.binop("//", a[0], a[1]), I.binop("%", a[0], a[1])])


@model("builtins.ord")
def _ord(I, a, k):
    return I.pure(lambda x: ord(x) if isinstance(x, str) else I._und("ord"), a[0])


@model("builtins.chr")
def _chr(I, a, k):
    return I.pure(lambda x: chr(x) if isinstance(x, int) else I._und("chr"), a[0])


@model("builtins.id", "builtins.hash")
def _id(I, a, k):
    return I.pure(lambda x: x if is_num(x) else Fn("address", (x,)), a[0])


@model("builtins.callable")
def _callable(I, a, k):
    return I.pure(lambda x: isinstance(x, (Func, Bound, Wrap)) or isinstance(x, Ref) and I.get(x).kind == "cls", a[0])


# ------------------------------------------------------------------ containers
@model("builtins.range")
def _range(I, a, k):
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    else:
        lo, hi, st = a[0], a[1], a[2] if len(a) > 2 else 1

    def f(lo, hi, st):
        for x in (lo, hi, st):
            if isinstance(x, bool):
                continue
            if isinstance(x, Poly):
                d = psub(poly(hi), poly(lo)).const()
                if d is not None and isinstance(st, int) and is_int_poly(poly(lo)):
                    return Tup([num(padd(poly(lo), poly(i))) for i in range(0, int(d), st)])
                raise Undecided("range with unknown bounds")
            if not isinstance(x, int):
                if isinstance(x, Fraction) or x is None or is_text(x):
                    raise PyExc("TypeError", "range() needs integers")
                raise Undecided("range with unknown bounds")
        if st == 0:
            raise PyExc("ValueError", "range() arg 3 must not be zero")
        r = range(lo, hi, st)
        if len(r) > 500:
            raise Undecided("range too long")
        return Tup(list(r))

    v = I.pure(f, lo, hi, st)
    if type(v) is not Ite:
        return I.new_list(v.items)
    n = max(len(l.items) for _, l in leaves(v, I.care()))
    items = []
    for j in range(n):
        g = I.s(lift(lambda t: j < len(t.items), v))
        x = I.s(lift(lambda t: t.items[j] if j < len(t.items) else T.UNBOUND, v))
        x = T.simp(x, b_and(I.care(), g))
        items.append((g, x))
    return I.alloc(H("list", None, None, items))


def to_list(I, v, kind=None):
    items = []
    for g, x in I.iterate(v):
        items.append((g, x))
    return I.alloc(H("list", kind, None, items))


@model("builtins.list")
def _list(I, a, k):
    if not a:
        return I.alloc(H("list"))
    return to_list(I, a[0])


@model("builtins.iter")
def _iter(I, a, k):
    v = I.s(a[0])
    if isinstance(v, Ref) and (I.get(v).meta == "iter" or is_gen(I, v)):
        return v
    return to_list(I, v, "iter")


@model("builtins.next")
def _next(I, a, k):
    def one(x):
        if is_gen(I, x) and not I.force_quietly(x):
            return I.first(x, lambda v: (True, v), lambda: a[1] if len(a) > 1 else I.raise_exc("StopIteration"))
        if isinstance(x, Ref) and I.get(x).kind == "list" and I.get(x).meta != "iter":
            I.raise_exc("TypeError", "'list' object is not an iterator")
        if not isinstance(x, Ref) or I.get(x).kind != "list":
            if isinstance(x, Ref) and I.get(x).kind == "obj" and I.user_attr(x, "__next__"):
                return I.call(I.getattr(x, "__next__"), [], {})
            if isinstance(x, Ref) and I.get(x).kind == "iterc":
                h = I.get(x)
                v = h.d["next"]
                I.put(x, h.with_d("next", I.binop("+", v, h.d["step"])))
                return v
            raise Undecided("next of %r" % (x,))

        def go(i):
            h = I.get(x)
            if i == len(h.items):
                I.put(x, h.with_items(()))
                if len(a) > 1:
                    return a[1]
                I.raise_exc("StopIteration")
            g, v = h.items[i]

            def take():
                hh = I.get(x)
                I.put(x, hh.with_items([(False, None)] * 0 + list(hh.items[i + 1:])))
                return v

            return I.branch(g, take, lambda: go(i + 1))

        return go(0)

    return I.case(a[0], one)


@model("builtins.tuple")
def _tuple(I, a, k):
    if not a:
        return Tup(())
    v = I.s(a[0])
    if isinstance(v, Tup):
        return v
    if isinstance(v, Ref) and I.get(v).kind == "list" and any(I.s(g) is not True for g, _ in I.get(v).items):
        return I.split_list(v, lambda: Tup(I.seq(v)))
    return I.case(v, lambda x: Tup(I.seq(x)))


@model("builtins.dict", "collections.OrderedDict")
def _dict(I, a, k):
    r = I.alloc(H("dict"))
    if a:
        v = I.s(a[0])
        if isinstance(v, Ref) and I.get(v).kind == "dict":
            I.put(r, H("dict", None, None, I.get(v).items, dict(I.get(v).locs)))
        else:
            I.dict_update(r, v)
    for n, v in k.items():
        I.dict_set(r, n, v)
    return r


@model("collections.defaultdict")
def _defaultdict(I, a, k):
    r = I.alloc(H("dict", a[0] if a and a[0] is not None else None))
    if len(a) > 1:
        I.dict_update(r, a[1])
    return r


@model("builtins.set", "builtins.frozenset")
def _set(I, a, k):
    r = I.alloc(H("set"))
    if a:
        for g, x in I.iterate(a[0]):
            I.branch(g, lambda x=x: I.set_add(r, x), lambda: None)
    return r


@model("builtins.enumerate")
def _enumerate(I, a, k):
    start = arg(a, k, 1, "start", 0)
    src = I.s(a[0])
    if is_gen(I, src):
        cell = I.alloc(H("obj", Ext("builtins.object"), {"n": start}))

        def run(go):
            def step(v):
                n = I.get(cell).d["n"]
                I.put(cell, I.get(cell).with_d("n", I.binop("+", n, 1)))
                go(Tup([n, v]))

            I.consume(src, step)

        return I.new_gen(run)
    out = []
    cnt = start
    for g, x in I.iterate(a[0]):
        out.append((g, Tup([cnt, x])))
        nxt = I.binop("+", cnt, 1)
        cnt = I.s(ite(g, nxt, cnt))
    out = spread(I, out)
    return I.alloc(H("list", "iter", None, out))


def spread(I, items):
    """Tup values holding gated values are fine: gated values live inside tuples"""
    return items


@model("builtins.zip")
def _zip(I, a, k):
    seqs = []
    sure = True
    if len(a) > 1 and isinstance(a[0], Ref) and all(x == a[0] for x in a) and I.get(a[0]).kind == "list" and I.get(a[0]).meta == "iter":
        s = I.seq(a[0])  # one iterator taken several times: its elements in groups
        n = len(a)
        return I.alloc(H("list", "iter", None, [(True, Tup(s[i:i + n])) for i in range(0, len(s) - n + 1, n)]))
    for x in a:
        ent = list(I.iterate(x))
        if any(I.s(g) is not True for g, _ in ent):
            sure = False
        seqs.append(ent)
    if sure:
        n = min(len(s) for s in seqs) if seqs else 0
        return I.alloc(H("list", "iter", None, [(True, Tup([s[i][1] for s in seqs])) for i in range(n)]))
    # position-wise: the j-th present element of every sequence
    refs = [I.alloc(H("list", None, None, s)) for s in seqs]
    n = min(len(s) for s in seqs)
    out = []
    lens = [I.length(r) for r in refs]
    for j in range(n):
        g = True
        for L in lens:
            g = b_and(g, I.s(lift(lambda m: m > j, L)))
        g = I.s(g)
        if g is False:
            break
        vals = []
        for r in refs:
            v = I.list_index(I.get(r), j)
            vals.append(T.simp(v, b_and(I.care(), g)))
        out.append((g, Tup(vals)))
    return I.alloc(H("list", "iter", None, out))


@model("builtins.map")
def _map(I, a, k):
    src = I.s(a[1]) if len(a) == 2 else _zip(I, a[1:], {})
    if not is_gen(I, src) and isinstance(src, Ref):
        src = I.s(_iter(I, [src], {})) if I.get(src).kind == "obj" else src

    def run(go):
        I.each(src, lambda x: go(I.call(a[0], [x] if len(a) == 2 else list(x.items), {})) and None)

    return I.new_gen(run)


@model("builtins.filter")
def _filter(I, a, k):
    src = I.s(a[1])

    def run(go):
        def step(x):
            t = I.truth(I.call(a[0], [x], {})) if I.s(a[0]) is not None else I.truth(x)
            I.branch(t, lambda: go(x) and None, lambda: None)

        I.each(src, step)

    return I.new_gen(run)


@model("builtins.reversed")
def _reversed(I, a, k):
    ent = list(I.iterate(a[0]))
    return I.alloc(H("list", "iter", None, ent[::-1]))


def sort_values(I, vals, key, reverse):
    """insertion sort; unknown orders fork"""
    out = []
    keyed = [(I.call(key, [v], {}) if key is not None else v, v) for v in vals]

    def ins(i, acc):
        if i == len(keyed):
            return Tup([v for _, v in acc])
        kx, v = keyed[i]

        def place(j):
            if j == 0:
                return ins(i + 1, [(kx, v)] + acc)
            kj = acc[j - 1][0]
            less = I.order(kx, kj) if not reverse else I.order(kj, kx)
            return I.branch(less, lambda: place(j - 1), lambda: ins(i + 1, acc[:j] + [(kx, v)] + acc[j:]))

        return place(len(acc))

    return ins(0, [])


@model("builtins.sorted")
def _sorted(I, a, k):
    key = k.get("key")
    rev = I.s(k.get("reverse", False))
    src = to_list(I, a[0])
    r = I.alloc(H("list"))

    def do():
        t = sort_values(I, I.seq(src), key, rev is True)

        def fill(x):
            I.put(r, H("list", None, None, [(True, v) for v in x.items]))

        return I.case(t, fill)

    I.split_list(src, do)
    return r


# list methods
@model("list.append", "list.add")
def _append(I, a, k):
    I.list_append(a[0], a[1])


@model("list.extend")
def _extend(I, a, k):
    I.list_extend(a[0], a[1])


@model("list.insert")
def _insert(I, a, k):
    x = a[0]

    def one(i):
        if not isinstance(i, int):
            raise Undecided("insert at unknown position")

        def do():
            h = I.get(x)
            items = list(h.items)
            items.insert(i, (True, a[2]))
            I.put(x, h.with_items(items))

        if i == 0:
            return do()
        return I.split_list(x, do)

    return I.case(a[1], one)


@model("list.appendleft")
def _appendleft(I, a, k):
    h = I.get(a[0])
    I.put(a[0], h.with_items(((True, a[1]),) + h.items))


@model("list.pop", "list.popleft")
def _pop(I, a, k):
    x = a[0]
    i = a[1] if len(a) > 1 else -1

    def one(i):
        def do():
            h = I.get(x)
            items = list(h.items)
            if not isinstance(i, int):
                raise Undecided("pop at unknown position")
            try:
                v = items.pop(i)[1]
            except IndexError:
                I.raise_exc("IndexError", "pop from empty list")
            I.put(x, h.with_items(items))
            return v

        return I.split_list(x, do)

    return I.case(i, one)


M["list.popleft"] = lambda I, a, k: _pop(I, [a[0], 0], k)


@model("list.remove")
def _remove(I, a, k):
    x = a[0]

    def do():
        n = len(I.get(x).items)

        def go(i):
            if i >= len(I.get(x).items):
                I.raise_exc("ValueError", "list.remove(x): x not in list")
            c = I.eq(I.get(x).items[i][1], a[1])

            def hit():
                h = I.get(x)
                I.put(x, h.with_items(h.items[:i] + h.items[i + 1:]))

            return I.branch(c, hit, lambda: go(i + 1))

        return go(0)

    return I.split_list(x, do)


@model("list.index")
def _index(I, a, k):
    x = a[0]

    def do():
        items = I.seq(x)

        def go(i):
            if i >= len(items):
                I.raise_exc("ValueError", "value is not in list")
            return I.branch(I.eq(items[i], a[1]), lambda: i, lambda: go(i + 1))

        return go(0)

    if isinstance(x, Tup):
        return do()
    return I.split_list(x, do)


M["tuple.index"] = _index


@model("list.count", "tuple.count")
def _count(I, a, k):
    r = 0
    for g, x in I.iterate(a[0]):
        c = b_and(g, I.eq(x, a[1]))
        r = I.s(lift(lambda n, b: n + 1 if b else n, r, c))
    return r


@model("list.reverse")
def _reverse(I, a, k):
    h = I.get(a[0])
    I.put(a[0], h.with_items(h.items[::-1]))


@model("list.copy")
def _copy_list(I, a, k):
    h = I.get(a[0])
    return I.alloc(H("list", None, None, h.items))


@model("list.clear", "dict.clear", "set.clear")
def _clear(I, a, k):
    h = I.get(a[0])
    I.put(a[0], h.with_items(()))


@model("list.sort")
def _sort(I, a, k):
    r = _sorted(I, [a[0]], k)
    h = I.get(a[0])
    I.put(a[0], h.with_items(I.get(r).items))


@model("list.__len__", "dict.__len__")
def _l(I, a, k):
    return I.length(a[0])


@model("list.__iter__", "dict.__iter__")
def _it(I, a, k):
    return _iter(I, a, k)


@model("list.close")
def _close_gen(I, a, k):
    return None


# dict methods
@model("dict.get")
def _dget(I, a, k):
    return I.dict_get(a[0], I.s(a[1]), arg(a, k, 2, "default"), False)


@model("dict.keys")
def _dkeys(I, a, k):
    return I.alloc(H("list", "keys", None, [(g, key) for key, g, v in I.get(a[0]).items]))


@model("dict.values")
def _dvalues(I, a, k):
    return I.alloc(H("list", "values", None, [(g, v) for key, g, v in I.get(a[0]).items]))


@model("dict.items")
def _ditems(I, a, k):
    return I.alloc(H("list", "keys", None, [(g, Tup([key, v])) for key, g, v in I.get(a[0]).items]))


@model("dict.update")
def _dupdate(I, a, k):
    if len(a) > 1:
        I.dict_update(a[0], a[1])
    for n, v in k.items():
        I.dict_set(a[0], n, v)


@model("dict.copy")
def _dcopy(I, a, k):
    h = I.get(a[0])
    return I.alloc(H("dict", None if type(h.meta) is AttrsOf else h.meta, None, h.items, dict(h.locs)))


@model("dict.setdefault")
def _dsetdefault(I, a, k):
    d = a[2] if len(a) > 2 else None

    def one(key):
        c = I.contains(a[0], key)
        return I.branch(c, lambda: I.dict_get(a[0], key, None, True), lambda: (I.dict_set(a[0], key, d), d)[1])

    return I.case(a[1], one)


@model("dict.pop")
def _dpop(I, a, k):
    def one(key):
        c = I.contains(a[0], key)

        def miss():
            if len(a) > 2:
                return a[2]
            I.raise_exc("KeyError", key)

        return I.branch(c, lambda: I.delitem(a[0], key), miss)

    return I.case(a[1], one)


@model("dict.popitem")
def _dpopitem(I, a, k):
    def do():
        h = I.get(a[0])
        if not h.items:
            I.raise_exc("KeyError", "popitem(): dictionary is empty")
        key, g, v = h.items[-1]
        I.put(a[0], h.with_items(h.items[:-1]))
        return Tup([key, v])

    return I.split_dict(a[0], do)


@model("dict.fromkeys", "builtins.dict.fromkeys")
def _fromkeys(I, a, k):
    r = I.alloc(H("dict"))
    v = a[1] if len(a) > 1 else None
    for g, x in I.iterate(a[0]):
        I.branch(g, lambda x=x: I.setitem(r, x, v), lambda: None)
    return r


@model("set.add")
def _sadd(I, a, k):
    I.set_add(a[0], a[1])


@model("set.update")
def _supdate(I, a, k):
    for src in a[1:]:
        for g, x in I.iterate(src):
            I.branch(g, lambda x=x: I.set_add(a[0], x), lambda: None)


@model("set.copy")
def _scopy(I, a, k):
    return I.alloc(H("set", None, None, I.get(a[0]).items))


@model("set.union")
def _sunion(I, a, k):
    r = _scopy(I, a, k)
    _supdate(I, [r] + list(a[1:]), k)
    return r


@model("set.intersection")
def _sinter(I, a, k):
    r = I.alloc(H("set"))
    for g, x in I.iterate(a[0]):
        I.branch(b_and(g, I.contains(a[1], x)), lambda x=x: I.set_add(r, x), lambda: None)
    return r


@model("set.difference")
def _sdiff(I, a, k):
    r = I.alloc(H("set"))
    for g, x in I.iterate(a[0]):
        I.branch(b_and(g, b_not(I.contains(a[1], x))), lambda x=x: I.set_add(r, x), lambda: None)
    return r


@model("set.symmetric_difference")
def _ssym(I, a, k):
    b = _set(I, a[1:], {})
    return _sunion(I, [_sdiff(I, [a[0], b], {}), _sdiff(I, [b, a[0]], {})], {})


@model("set.issuperset")
def _ssup(I, a, k):
    return _ssub(I, [_set(I, a[1:], {}), a[0]], {})


@model("set.isdisjoint")
def _sdisj(I, a, k):
    r = True
    for g, x in I.iterate(a[0]):
        r = b_and(r, b_not(b_and(g, I.contains(a[1], x))))
    return I.s(r)


@model("set.remove")
def _sremove(I, a, k):
    I.branch(I.contains(a[0], a[1]), lambda: _sdiscard(I, a, k), lambda: I.raise_exc("KeyError", a[1]))


@model("set.issubset")
def _ssub(I, a, k):
    r = True
    for g, x in I.iterate(a[0]):
        r = b_and(r, b_or(b_not(g), I.contains(a[1], x)))
    return I.s(r)


@model("set.discard")
def _sdiscard(I, a, k):
    h = I.get(a[0])
    out = []
    for key, g, v in h.items:
        e = I.eq(a[1], key)
        out.append((key, I.s(b_and(g, b_not(e))), v))
    I.put(a[0], h.with_items([e for e in out if e[1] is not False]))


# ------------------------------------------------------------------ objects and types
@model("builtins.isinstance")
def _isinstance(I, a, k):
    return I.pure(I.isinstance_leaf, a[0], a[1])


@model("builtins.issubclass")
def _issubclass(I, a, k):
    def f(c, t):
        ts = t.items if isinstance(t, Tup) else [t]
        if isinstance(c, Ref):
            return any(x in I.get(c).meta.mro for x in ts)
        if isinstance(c, Ext) and c.name.startswith("builtins.") and c.name[9:] in EXC_BASES:
            return any(isinstance(x, Ext) and x.name[9:] in EXC_BASES[c.name[9:]] for x in ts)
        return c in ts

    return I.pure(f, a[0], a[1])


@model("builtins.type")
def _type(I, a, k):
    if len(a) == 3:
        name, bases, d = I.s(a[0]), I.seq(a[1]), I.s(a[2])
        if isinstance(name, str) and isinstance(d, Ref) and I.get(d).kind == "dict" and all(I.s(e[1]) is True and isinstance(e[0], str) for e in I.get(d).items):
            return I.make_class(name, name, bases, {e[0]: e[2] for e in I.get(d).items})
    if len(a) != 1:
        raise Undecided("dynamic class creation")
    return I.pure(I.type_of, a[0])


@model("builtins.getattr")
def _getattr(I, a, k):
    def one(n):
        if not isinstance(n, str):
            raise Undecided("getattr with unknown name")
        if len(a) > 2:
            return I.getattr(a[0], n, a[2])
        return I.getattr(a[0], n)

    return I.case(a[1], one)


@model("builtins.hasattr")
def _hasattr(I, a, k):
    def one(n):
        r = I.getattr(a[0], n, UNBOUND)
        return lift(lambda x: x is not UNBOUND, r)

    return I.s(I.case(a[1], one))


@model("builtins.setattr", "object.__setattr__")
def _setattr(I, a, k):
    def one(n):
        if not isinstance(n, str):
            raise Undecided("setattr with unknown name")
        I.setattr(a[0], n, a[2])

    return I.case(a[1], one)


def _object_setattr(I, a, k):
    def one(o, n):
        if not isinstance(n, str):
            raise Undecided("setattr with unknown name")
        I.setattr_leaf(o, n, a[2], False)

    return I.cases([I.s(a[0]), I.s(a[1])], one)


M["builtins.object.__setattr__"] = M["object.__setattr__"] = _object_setattr


@model("builtins.delattr")
def _delattr(I, a, k):
    o, n = I.s(a[0]), I.s(a[1])
    if not (isinstance(o, Ref) and isinstance(n, str)) or I.get(o).kind != "obj" or I.user_attr(o, "__delattr__"):
        raise Undecided("delattr")
    I.getattr(o, n)
    h = I.get(o)
    d = {x: y for x, y in h.d.items() if x != n}
    I.put(o, H(h.kind, h.meta, d, h.items, h.locs))


@model("builtins.globals")
def _globals(I, a, k):
    return I.alloc(H("dict", AttrsOf(Ref(I.ctx[-1].modaddr))))


@model("builtins.vars")
def _vars(I, a, k):
    if not a:
        raise Undecided("vars() of a frame")
    return I.getattr(a[0], "__dict__")


@model("object.__new__", "builtins.object.__new__")
def _objnew(I, a, k):
    c = I.s(a[0])
    if not isinstance(c, Ref) or I.get(c).kind != "cls" or I.get(c).meta.members is not None or any(isinstance(b, Ext) and b.name not in ("builtins.object", "abc.ABC", "typing.Generic", "typing.Protocol") for b in I.get(c).meta.mro):
        raise Undecided("__new__")
    return I.alloc(H("obj", c, {}))


@model("object.__init__", "object.__init_subclass__")
def _objinit(I, a, k):
    if len(a) > 1 or k:
        x = I.s(a[0])
        I.raise_exc("TypeError", "object.__init__() takes exactly one argument")
    return None


@model("object.__str__", "object.__repr__")
def _objstr(I, a, k):
    return SStr([Fn("address", (a[0],))])


@model("exc.__init__")
def _excinit(I, a, k):
    I.put(a[0], I.get(a[0]).with_d("args", Tup(a[1:])))


@model("exc.with_traceback")
def _excwt(I, a, k):
    return a[0]


@model("builtins.object")
def _object(I, a, k):
    cls = getattr(I, "_objcls", None)
    return I.alloc(H("obj", Ext("builtins.object"), {}))


@model("builtins.super")
def _super(I, a, k):
    return Wrap("super", [I.s(a[0]), I.s(a[1])])


@model("builtins.staticmethod")
def _static(I, a, k):
    return Wrap("static", [a[0]])


@model("builtins.classmethod")
def _classm(I, a, k):
    return Wrap("classmethod", [a[0]])


@model("builtins.property")
def _prop(I, a, k):
    return Wrap("property", list(a) + [None] * (2 - len(a)) if len(a) < 2 else a)


@model("property.setter")
def _psetter(I, a, k):
    return Wrap("property", [a[0].args[0], a[1]])


@model("property.getter")
def _pgetter(I, a, k):
    return Wrap("property", [a[1], a[0].args[1]])


@model("functools.cached_property")
def _cachedprop(I, a, k):
    return Wrap("cached", [a[0]])


@model("functools.partial")
def _partial(I, a, k):
    return Wrap("partial", [a[0], tuple(a[1:]), tuple(sorted(k.items()))])


@model("functools.wraps", "functools.update_wrapper")
def _wraps(I, a, k):
    return Wrap("getter", ["wraps", a[0]])


M["functools.update_wrapper"] = lambda I, a, k: _getter_call(I, Wrap("getter", ["wraps", a[1]]), [a[0]])


@model("functools.total_ordering")
def _total(I, a, k):
    I.get(a[0]).meta.ordered = "total"
    return a[0]


@model("functools.identity", "typing.cast", "abc.abstractmethod", "typing.final", "typing.overload", "enum.unique")
def _identity(I, a, k):
    return a[-1]


@model("functools.reduce")
def _reduce(I, a, k):
    items = I.seq(a[1])
    if len(a) > 2:
        acc = a[2]
    else:
        if not items:
            I.raise_exc("TypeError", "reduce() of empty sequence")
        acc = items.pop(0)
    for x in items:
        acc = I.call(a[0], [acc, x], {})
    return acc


@model("dataclasses.dataclass")
def _dataclass(I, a, k):
    if not a:
        return Wrap("getter", ["dataclass", tuple(sorted(k.items()))])
    cls = a[0]
    info = I.get(cls).meta
    fields = []
    for c in reversed(info.mro):
        if isinstance(c, Ref):
            d = I.get(c).d
            for n in d.get("__annotations_order__", Tup(())).items:
                has, dv = False, None
                if n in d:
                    has, dv = True, d[n]
                    if isinstance(dv, Wrap) and dv.kind == "field":
                        kw = dict(dv.args[0])
                        if "default_factory" in kw:
                            has, dv = "factory", kw["default_factory"]
                        elif "default" in kw:
                            has, dv = True, kw["default"]
                        else:
                            has = False
                fields = [f for f in fields if f[0] != n] + [(n, has, dv)]
    info.dataclass = fields
    if any(x is not False for x in (I.s(k.get("frozen", False)), I.s(k.get("order", False)), I.s(k.get("slots", False)))):
        if k.get("order") is True:
            info.ordered = True
        if set(k) - {"order", "frozen", "eq", "repr", "init", "slots"}:
            raise Undecided("data class option")
    if I.s(k.get("init", True)) is not True:
        raise Undecided("data class option")
    info.plain_eq = I.s(k.get("eq", True)) is True
    info.frozen = I.s(k.get("frozen", False)) is True
    return cls


@model("dataclasses.field")
def _field(I, a, k):
    return Wrap("field", [tuple(sorted(k.items()))])


@model("enum.Enum", "enum.IntEnum")
def _functional_enum(I, a, k):
    """Enum('Name', names): a class made by a call"""
    a = list(a)
    name = I.s(a[0] if a else k.get("value"))
    names = I.s(a[1]) if len(a) > 1 else I.s(k.get("names"))
    start = I.s(k.get("start", 1))
    if not isinstance(name, str) or not isinstance(start, int) or set(k) - {"names", "module", "qualname", "start", "value"}:
        raise Undecided("enumeration made by a call")
    ns = {}
    if isinstance(names, str):
        names = names.replace(",", " ").split()
        ns = {n: start + i for i, n in enumerate(names)}
    else:
        if isinstance(names, Ref) and I.get(names).kind == "dict":
            pairs = I.seq(I.call(I.getattr_leaf(names, "items"), [], {}))
        else:
            pairs = I.seq(names)
        for i, e in enumerate(pairs):
            e = I.s(e)
            if isinstance(e, str):
                ns[e] = start + i
            else:
                kk, vv = [I.s(x) for x in I.seq(e)]
                ns[kk] = vv
    return I.make_class(name, name, [Ext("enum.Enum")], ns)


@model("enum.auto")
def _auto(I, a, k):
    return Sym("auto", "auto")


# operator module
for _n, _o in (("add", "+"), ("sub", "-"), ("mul", "*"), ("truediv", "/"), ("mod", "%"), ("pow", "**"), ("floordiv", "//")):
    M["operator." + _n] = lambda I, a, k, _o=_o: I.binop(_o, a[0], a[1])
M["operator.neg"] = lambda I, a, k: I.pure(I._neg, a[0])
M["operator.eq"] = lambda I, a, k: I.eq(a[0], a[1])
M["operator.ne"] = lambda I, a, k: b_not(I.eq(a[0], a[1]))
M["operator.lt"] = lambda I, a, k: I.pure(I.lt_leaf, a[0], a[1])
M["operator.gt"] = lambda I, a, k: I.pure(I.lt_leaf, a[1], a[0])
M["operator.not_"] = lambda I, a, k: b_not(I.truth(a[0]))
M["operator.truth"] = lambda I, a, k: I.truth(a[0])
M["operator.is_"] = lambda I, a, k: I.pure(I.is_leaf, a[0], a[1])
M["operator.is_not"] = lambda I, a, k: b_not(I.pure(I.is_leaf, a[0], a[1]))


@model("operator.methodcaller")
def _methodcaller(I, a, k):
    return Wrap("getter", ["method", (a[0], tuple(a[1:]), tuple(sorted(k.items())))])


@model("sa.undecided")
def _undecided(I, a, k):
    raise Undecided("part of the standard library that is not modelled")


@model("sa.ctxmgr")
def _ctxmgr(I, a, k):
    if not isinstance(a[0], Ref) or I.get(a[0]).kind != "gen":
        raise Undecided("context manager made from something that is no generator")
    return I.alloc(H("ctxmgr", a[0]))


M["operator.attrgetter"] = lambda I, a, k: Wrap("getter", ["attr", tuple(a)])
M["operator.itemgetter"] = lambda I, a, k: Wrap("getter", ["item", tuple(a)])


def _getter_call(I, w, args, kwargs=None):
    kind, names = w.args
    if kind == "dataclass":
        return _dataclass(I, list(args), dict(names))
    if kind == "wraps":
        f, w = args[0], names
        if not isinstance(f, Func):
            return f
        r = type(f)()
        for n in f.__slots__:
            setattr(r, n, getattr(f, n))
        if isinstance(w, Func):
            r.name, r.qual = w.name, w.qual
        return r
    if kind == "method":
        (n, margs, mkw) = names
        return I.call(I.getattr(args[0], n), list(margs), dict(mkw))
    out = []
    for n in names:
        if kind == "attr":
            v = args[0]
            for part in n.split("."):
                v = I.getattr(v, part)
        else:
            v = I.getitem(args[0], n)
        out.append(v)
    return out[0] if len(out) == 1 else Tup(out)


M["getter"] = _getter_call


# ------------------------------------------------------------------ itertools / copy
def _combi(I, a, fn):
    src = to_list(I, a[0])
    r = I.alloc(H("list", "iter"))

    def do():
        items = I.seq(src)
        I.put(r, H("list", "iter", None, [(True, Tup([items[i] for i in ix])) for ix in fn(len(items))]))

    # keep one guarded list when only presence is uncertain
    h = I.get(src)
    if all(I.s(g) is True for g, _ in h.items):
        do()
        return r
    n = len(h.items)
    out = []
    for ix in fn(n):
        g = True
        for i in ix:
            g = b_and(g, h.items[i][0])
        g = I.s(g)
        if g is not False:
            out.append((g, Tup([h.items[i][1] for i in ix])))
    I.put(r, H("list", "iter", None, out))
    return r


@model("itertools.combinations")
def _combinations(I, a, k):
    import itertools

    r = arg(a, k, 1, "r")
    return _combi(I, a, lambda n: itertools.combinations(range(n), r))


@model("itertools.permutations")
def _permutations(I, a, k):
    import itertools

    r = arg(a, k, 1, "r")
    return _combi(I, a, lambda n: itertools.permutations(range(n), r if r is not None else n))


@model("itertools.product")
def _product(I, a, k):
    lists = [list(I.iterate(x)) for x in a] * (k.get("repeat", 1))
    out = [(True, ())]
    for l in lists:
        out = [(b_and(g, g2), t + (x,)) for g, t in out for g2, x in l]
    return I.alloc(H("list", "iter", None, [(I.s(g), Tup(t)) for g, t in out]))


@model("itertools.chain")
def _chain(I, a, k):
    items = []
    for x in a:
        items += list(I.iterate(x))
    return I.alloc(H("list", "iter", None, items))


@model("itertools.chain.from_iterable")
def _chainfi(I, a, k):
    items = []
    for g, x in I.iterate(a[0]):
        items += [(b_and(g, g2), y) for g2, y in I.iterate(x)]
    return I.alloc(H("list", "iter", None, items))


@model("itertools.pairwise")
def _pairwise(I, a, k):
    s = I.seq(a[0])
    return I.alloc(H("list", "iter", None, [(True, Tup(p)) for p in zip(s, s[1:])]))


@model("itertools.islice")
def _islice(I, a, k):
    if isinstance(a[0], Ref) and I.get(a[0]).kind == "iterc":
        b = [I.s(x) for x in a[1:]]
        lo, hi, st = (0, b[0], 1) if len(b) == 1 else (b + [1])[:3]
        if not all(isinstance(x, int) for x in (lo, hi, st)):
            raise Undecided("islice")
        got = [I.call(Ext("builtins.next"), [a[0]], {}) for _ in range(hi)]
        return I.alloc(H("list", "iter", None, [(True, x) for x in got[lo:hi:st]]))
    it = a[0] if isinstance(a[0], Ref) and I.get(a[0]).kind == "list" and I.get(a[0]).meta == "iter" else None
    s = I.seq(a[0])
    b = [I.s(x) for x in a[1:]]
    if not all(x is None or isinstance(x, int) for x in b):
        raise Undecided("islice")
    if it is not None:
        stop = b[0] if len(b) == 1 else b[1]
        I.put(it, H("list", "iter", None, [] if stop is None else [(True, x) for x in s[stop:]]))
    return I.alloc(H("list", "iter", None, [(True, x) for x in s[slice(*b)]]))


@model("itertools.count")
def _icount(I, a, k):
    return I.alloc(H("iterc", None, {"next": arg(a, k, 0, "start", 0), "step": arg(a, k, 1, "step", 1)}))


@model("copy.copy")
def _copycopy(I, a, k):
    def one(x):
        if isinstance(x, Ref):
            h = I.get(x)
            if h.kind in ("cls", "mod") or h.kind == "obj" and is_member(I, x):
                return x
            if I.user_attr(x, "__copy__") if h.kind == "obj" else False:
                return I.call(I.getattr(x, "__copy__"), [], {})
            return I.alloc(H(h.kind, h.meta, dict(h.d), h.items, dict(h.locs)))
        return x

    return I.case(a[0], one)


def is_member(I, x):
    h = I.get(x)
    return isinstance(h.meta, Ref) and I.get(h.meta).meta.members is not None


@model("copy.deepcopy")
def _deepcopy(I, a, k):
    memo = {}

    def val(v):
        return lift(leaf, I.s(v)) if type(v) is Ite else leaf(v)

    def leaf(x):
        if isinstance(x, Ref):
            return ref(x)
        if isinstance(x, Tup):
            return Tup([val(i) for i in x.items])
        if isinstance(x, Bound):
            return Bound(x.fn, val(x.self_))
        return x

    def ref(x):
        if x in memo:
            return memo[x]
        h = I.get(x)
        if h.kind in ("cls", "mod", "frame", "file") or h.kind == "obj" and is_member(I, x):
            memo[x] = x
            return x
        if h.kind == "obj" and isinstance(h.meta, Ref):
            if I.user_attr(x, "__deepcopy__", "__reduce__", "__getstate__"):
                raise Undecided("custom deepcopy")
        n = I.alloc(H(h.kind, h.meta))
        memo[x] = n
        if h.kind in ("dict", "set"):
            items = [(val(e[0]), e[1], val(e[2])) for e in h.items]
        else:
            items = [(g, val(v)) for g, v in h.items]
        I.put(n, H(h.kind, h.meta, {kk: val(v) for kk, v in h.d.items()}, items, dict(h.locs)))
        return n

    return val(a[0])


# ------------------------------------------------------------------ text
def _const(x):
    return isinstance(x, (str, int, Fraction, bool)) or x is None


STR_PURE = set("upper lower title capitalize strip lstrip rstrip startswith endswith isdigit isnumeric isalpha isalnum isdecimal isspace zfill ljust rjust center find rfind count index casefold swapcase removeprefix removesuffix isidentifier expandtabs isupper islower".split())


def _str_any(I, name, args, kw):
    s = args[0]
    rest = args[1:]
    if name == "format":
        return I.case(s, lambda f: str_format(I, f, rest, kw))
    if name == "join":
        return I.case(s, lambda f: str_join(I, f, rest[0]))
    if name in ("split", "rsplit", "splitlines", "partition", "rpartition"):
        def f(x, *r):
            if isinstance(x, str) and all(_const(y) for y in r):
                return Tup(getattr(x, name)(*r))
            if isinstance(x, SStr) and name.startswith("split") and all(_const(y) for y in r):
                return Fn("str." + name, (x,) + r)
            raise Undecided("str.%s of unknown text" % name)

        v = I.pure(f, s, *rest)
        if name.endswith("partition"):
            return v
        return I.case(v, lambda t: I.new_list(t.items) if isinstance(t, Tup) else t)
    if name == "encode":
        def enc(x, *r):
            e = norm_enc(r[0] if r else kw.get("encoding", "utf-8"))
            if isinstance(x, Fn) and x.name == "ser":
                return Fn("ser", (x.args[0], "bytes", e))
            if isinstance(x, SStr) and len(x.parts) == 1 and isinstance(x.parts[0], Fn) and x.parts[0].name == "ser":
                return Fn("ser", (x.parts[0].args[0], "bytes", e))
            if isinstance(x, str):
                return Bytes(x.encode(e))
            return Fn("encode", (x, e))

        return I.pure(enc, s, *rest)
    if name == "replace":
        def rep(x, o, n, *c):
            if isinstance(x, str) and isinstance(o, str) and isinstance(n, str):
                return x.replace(o, n)
            if o is None or n is None:
                raise PyExc("TypeError", "replace() argument")
            if isinstance(x, SStr) and len(x.parts) == 1 and isinstance(x.parts[0], Fn) and x.parts[0].name == "ser":
                return ser_replace(x.parts[0], o, n)
            if isinstance(x, SStr) and isinstance(o, str) and isinstance(n, str):
                out = []
                for p in x.parts:
                    if isinstance(p, str):
                        out.append(p.replace(o, n))
                    elif isinstance(p, StrOf) and is_num(p.v) and not any(ch in "0123456789.-+e" for ch in o):
                        out.append(p)
                    else:
                        out.append(Fn("str.replace", (p if isinstance(p, Fn) else SStr([p]), o, n)))
                return sstr(out)
            return SStr([Fn("str.replace", (x, o, n))])

        return I.pure(rep, s, *rest)
    if name in STR_PURE:
        def f(x, *r):
            if isinstance(x, str) and all(isinstance(y, (str, int)) or isinstance(y, Tup) and all(isinstance(z, str) for z in y.items) for y in r):
                r2 = [tuple(y.items) if isinstance(y, Tup) else y for y in r]
                try:
                    v = getattr(x, name)(*r2)
                except ValueError as e:
                    raise PyExc("ValueError", str(e))
                return v
            if any(y is None for y in r) and name not in ("strip", "lstrip", "rstrip"):
                raise PyExc("TypeError", "str.%s argument" % name)
            if isinstance(x, SStr) and len(x.parts) == 1 and isinstance(x.parts[0], Fn) and x.parts[0].name == "ser" and name in ("strip", "rstrip", "lstrip"):
                return x
            if name in ("startswith", "endswith") and isinstance(x, SStr) and r and isinstance(r[0], str):
                p = x.parts[0] if name == "startswith" else x.parts[-1]
                if isinstance(p, str) and len(p) >= len(r[0]):
                    return getattr(p, name)(r[0])
            if name.startswith("is") or name in ("startswith", "endswith"):
                if name in ("isdigit",) and isinstance(x, SStr) and len(x.parts) == 1 and isinstance(x.parts[0], StrOf) and isinstance(x.parts[0].v, Sym):
                    return I.th.pred("str." + name, x, *r)
                return I.th.pred("str." + name, x, *r)
            if name in ("strip", "lstrip", "rstrip") and isinstance(x, SStr) and all(isinstance(p, StrOf) and is_num(p.v) for p in x.parts):
                return x
            if name in ("upper", "lower") and isinstance(x, SStr):
                out = []
                for p in x.parts:
                    if isinstance(p, str):
                        out.append(getattr(p, name)())
                    elif isinstance(p, StrOf) and is_num(p.v):
                        out.append(p)
                    elif isinstance(p, Fn) and p.name == "str." + name:
                        out.append(p)
                    else:
                        out.append(Fn("str." + name, (SStr([p]),)))
                return sstr(out)
            if name in ("find", "rfind", "count", "index"):
                return num(T.pfn("str." + name, x, *r))
            return SStr([Fn("str." + name, (x,) + r)])

        return I.pure(f, s, *rest)
    raise Undecided("str." + name)


M["str.*"] = _str_any


for _n in dir(str):
    if not _n.startswith("_"):
        M["builtins.str." + _n] = lambda I, a, k, _n=_n: I.case(a[0], lambda x: I.call(I.getattr(x, _n), a[1:], k) if is_text(x) else I.raise_exc("TypeError", "descriptor requires a 'str' object"))
M["exception.same"] = lambda I, a, k: I._und("with_traceback")


def str_join(I, sep, seq):
    parts = []
    first = True
    for g, x in I.iterate(seq):
        g = I.s(g)
        if g is not True:
            r = to_list(I, seq)
            return I.split_list(r, lambda: str_join(I, sep, r))

        def chk(y):
            if not (is_text(y) or isinstance(y, Fn) or isinstance(y, Sym) and y.kind == "str"):
                raise PyExc("TypeError", "sequence item: expected str instance")
            return y

        if not first:
            parts.append(sep)
        first = False
        parts.append(I.pure(chk, x))
    return I.concat(parts)


def str_format(I, fmt, args, kw):
    if not isinstance(fmt, str):
        raise Undecided("format with unknown format string")
    import string

    parts = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        if lit:
            parts.append(lit)
        if field is None:
            continue
        import re

        m = re.match(r"^(\w*)(.*)$", field)
        base, rest = m.group(1), m.group(2)
        if base == "":
            if auto >= len(args):
                I.raise_exc("IndexError", "Replacement index out of range")
            v = args[auto]
            auto += 1
        elif base.isdigit():
            if int(base) >= len(args):
                I.raise_exc("IndexError", "Replacement index out of range")
            v = args[int(base)]
        else:
            if base not in kw:
                I.raise_exc("KeyError", base)
            v = kw[base]
        for at_, idx in re.findall(r"\.(\w+)|\[([^\]]+)\]", rest):
            v = I.getattr(v, at_) if at_ else I.getitem(v, int(idx) if idx.isdigit() else idx)
        if conv == "r":
            v = I.to_repr(v)
        elif conv == "s":
            v = I.to_str(v)
        parts.append(I.format(v, spec or ""))
    return I.concat(parts)


# bytes and serialised documents
def norm_enc(e):
    if e is None:
        return None
    if isinstance(e, str):
        import codecs

        try:
            return codecs.lookup(e).name
        except LookupError:
            return e
    raise Undecided("unknown encoding")


def ser_replace(x, o, n):
    o = o.b.decode("latin-1") if isinstance(o, Bytes) else o
    n = n.b.decode("latin-1") if isinstance(n, Bytes) else n
    if isinstance(o, str) and isinstance(n, str) and o.strip() == "" and n.strip() == "" and any(c in o for c in "\n\r\t"):
        return x  # white space between elements only (line breaks inside attributes are written as references)
    return Fn("ser-edited", (x, o, n))


@model("opaque.*")
def _opaque(I, name, args, kw):
    def one(x):
        rest = args[1:]
        if isinstance(x, Fn):
            if x.name == "ser":
                elem, form, enc = x.args
                if name == "replace":
                    return I.pure(lambda o, n: ser_replace(x, o, n), rest[0], rest[1])
                if name == "decode":
                    e = norm_enc(I.s(arg(rest, kw, 0, "encoding", "utf-8")))
                    if enc in (e, "us-ascii", "ascii") or enc is None:
                        return Fn("ser", (elem, "text", None))
                    return Fn("ser-misdecoded", (x, e))
                if name == "encode":
                    return Fn("ser", (elem, "bytes", norm_enc(I.s(arg(rest, kw, 0, "encoding", "utf-8")))))
                if name in ("strip", "rstrip", "lstrip"):
                    return x
                if name == "translate" and form == "bytes":
                    table, drop = I.s(rest[0]), I.s(arg(rest, kw, 1, "delete", Bytes(b"")))
                    if table is None and isinstance(drop, Bytes):
                        for ch in drop.b.decode("latin-1"):
                            x = ser_replace(x, ch, "")
                        return x
                if name not in ("upper", "lower", "title", "swapcase", "casefold", "capitalize"):
                    raise Undecided("%s of a serialised document" % name)
            if x.name == "dom":
                if name in ("toprettyxml", "toxml"):
                    e = norm_enc(I.s(kw.get("encoding", rest[2] if name == "toprettyxml" and len(rest) > 2 else rest[0] if name == "toxml" and rest else None)))
                    return Fn("ser", (x.args[0], "bytes" if e else "text", e))
                if name in ("documentElement", "unlink"):
                    return None
                if name == "writexml":
                    return write_file(I, rest[0], Fn("ser", (x.args[0], "text", None)))
            if x.name == "tree":
                if name == "getroot":
                    return x.args[0]
                if name == "write":
                    e = norm_enc(I.s(arg(rest, kw, 1, "encoding")))
                    if e == "unicode" or arg(rest, kw, 1, "encoding") == "unicode":
                        val = Fn("ser", (x.args[0], "text", None))
                    else:
                        val = Fn("ser", (x.args[0], "bytes", e or "us-ascii"))
                        if e not in (None, "utf-8", "us-ascii") and I.s(arg(rest, kw, 2, "xml_declaration")) is False:
                            val = Fn("ser-misdecoded", (val, e))
                    target = rest[0] if rest else kw.get("file_or_filename", kw.get("file"))

                    def tgt(t):
                        if isinstance(t, Ref) and I.get(t).kind == "file":
                            return write_file(I, t, val)
                        # ElementTree opens (text: with the given encoding) and closes the file itself
                        f = open_file(I, t, "w" if val.args[1] == "text" else "wb", "utf-8" if val.args[1] == "bytes" else None)
                        write_file(I, f, val)
                        I.put(f, I.get(f).with_d("closed", True))

                    return I.case(target, tgt)
        return Fn("." + name, (x,) + tuple(rest))

    return I.case(args[0], one)


@model("bytes.replace", "bytes.decode", "bytes.strip")
def _bytesm(I, a, k):
    raise Undecided("bytes method")


M["bytes.decode"] = lambda I, a, k: I.pure(lambda b: b.b.decode("utf-8"), a[0])


# ------------------------------------------------------------------ XML
@model("xml.etree.ElementTree.Element")
def _element(I, a, k):
    k = dict(k)
    tag = a[0] if a else k.pop("tag", None)
    attrib = a[1] if len(a) > 1 else k.pop("attrib", None)
    d = I.alloc(H("dict"))
    attrib = I.s(attrib)

    def fill(x):
        if x is None:
            return
        if isinstance(x, Ref) and I.get(x).kind == "dict":
            src = I.get(x)
            I.put(d, H("dict", None, None, src.items, dict(src.locs)))
            return
        I.raise_exc("TypeError", "attrib must be dict")

    I.case(attrib, fill)
    for n, v in k.items():
        I.dict_set(d, n, v)
    e = I.alloc(H("elem", tag, {"attrib": d, "text": None, "tail": None}))
    I.put(e, H("elem", tag, I.get(e).d, (), {"": I.loc()}))
    return e


@model("xml.etree.ElementTree.SubElement")
def _subelement(I, a, k):
    k = dict(k)
    tag = a[1] if len(a) > 1 else k.pop("tag")
    attrib = a[2] if len(a) > 2 else k.pop("attrib", None)
    e = _element(I, [tag], {"attrib": attrib, **k})
    I.case(a[0], lambda p: _eappend(I, [p, e], {}))
    return e


@model("elem.append")
def _eappend(I, a, k):
    p, c = a

    def chk(x):
        if not (isinstance(x, Ref) and I.get(x).kind == "elem"):
            raise PyExc("TypeError", "append() argument must be an Element")
        return x

    if not (isinstance(p, Ref) and I.get(p).kind == "elem"):
        I.raise_exc("TypeError", "not an Element")
    c = I.pure(chk, c)
    h = I.get(p)
    I.put(p, h.with_items(h.items + ((True, c),)))


@model("elem.extend")
def _eextend(I, a, k):
    for g, x in list(I.iterate(a[1])):
        h = I.get(a[0])
        I.put(a[0], h.with_items(h.items + ((I.s(g), x),)))


@model("elem.insert")
def _einsert(I, a, k):
    def one(i):
        def do():
            h = I.get(a[0])
            items = list(h.items)
            items.insert(i, (True, a[2]))
            I.put(a[0], h.with_items(items))

        return I.split_list(a[0], do)

    return I.case(a[1], one)


@model("elem.set")
def _eset(I, a, k):
    I.setitem(I.get(a[0]).d["attrib"], a[1], a[2])


@model("elem.get")
def _eget(I, a, k):
    return I.dict_get(I.get(a[0]).d["attrib"], I.s(a[1]), arg(a, k, 2, "default"), False)


@model("elem.keys")
def _ekeys(I, a, k):
    return _dkeys(I, [I.get(a[0]).d["attrib"]], {})


@model("elem.items")
def _eitems(I, a, k):
    return _ditems(I, [I.get(a[0]).d["attrib"]], {})


@model("elem.remove")
def _eremove(I, a, k):
    return _remove(I, a, k)


@model("elem.find")
def _efind(I, a, k):
    r = None
    h = I.get(a[0])
    for g, c in reversed(h.items):
        m = I.pure(lambda x, t: I.get(x).meta == t, c, a[1])
        r = ite(b_and(g, m), c, r)
    return I.s(r)


@model("elem.findall")
def _efindall(I, a, k):
    h = I.get(a[0])
    out = []
    for g, c in h.items:
        m = I.pure(lambda x, t: I.get(x).meta == t, c, a[1])
        g2 = I.s(b_and(g, m))
        if g2 is not False:
            out.append((g2, c))
    return I.alloc(H("list", None, None, out))


@model("xml.etree.ElementTree.tostring")
def _tostring(I, a, k):
    e = arg(a, k, 1, "encoding")

    def one(x, e):
        if e == "unicode":
            return Fn("ser", (x, "text", None))
        return Fn("ser", (x, "bytes", norm_enc(e) if e else "us-ascii"))

    return I.pure(one, a[0], e)


@model("xml.etree.ElementTree.ElementTree")
def _etree(I, a, k):
    return I.pure(lambda x: Fn("tree", (x,)), a[0] if a else k.get("element"))


@model("xml.etree.ElementTree.indent")
def _indent(I, a, k):
    return None


@model("xml.dom.minidom.parseString")
def _parsestring(I, a, k):
    def one(x):
        if isinstance(x, SStr) and len(x.parts) == 1 and isinstance(x.parts[0], Fn):
            x = x.parts[0]
        if isinstance(x, Fn) and x.name == "ser":
            return Fn("dom", (x.args[0],))
        return Fn("dom", (x,))

    return I.pure(one, a[0])


# ------------------------------------------------------------------ files and processes (recorded, never performed)
def record(I, *what):
    h = I.get(I.effects)
    loc = I.loc()
    I.put(I.effects, H("list", None, None, h.items + ((True, Tup(what + (str(loc),))),), h.locs))


def open_file(I, name, mode, enc):
    f = I.alloc(H("file", None, {"name": name, "mode": mode, "encoding": enc, "closed": False}))
    record(I, "open", f, name, mode)
    return f


@model("builtins.open", "io.open", "codecs.open")
def _open(I, a, k):
    return open_file(I, arg(a, k, 0, "file", k.get("filename")), arg(a, k, 1, "mode", "r"), arg(a, k, 3, "encoding"))


def write_file(I, f, v):
    h = I.get(f)
    closed = I.truth(h.d["closed"])
    I.branch(closed, lambda: I.raise_exc("ValueError", "I/O operation on closed file."), lambda: None)
    record(I, "write", f, v)
    h = I.get(f)
    I.put(f, h.with_items(h.items + ((True, v),)))
    return None


@model("file.write")
def _fwrite(I, a, k):
    return write_file(I, a[0], a[1])


@model("file.writelines")
def _fwritelines(I, a, k):
    for g, x in I.iterate(a[1]):
        I.branch(g, lambda x=x: write_file(I, a[0], x), lambda: None)


@model("file.__enter__")
def _fenter(I, a, k):
    return a[0]


@model("file.close", "file.__exit__")
def _fclose(I, a, k):
    I.put(a[0], I.get(a[0]).with_d("closed", True))
    return None


@model("file.flush", "file.fileno")
def _fflush(I, a, k):
    return None


def _proc(kind):
    def f(I, a, k):
        record(I, "proc", kind, Tup(a), Tup([Tup([n, v]) for n, v in sorted(k.items())]))
        return I.fresh("status", "true")

    return f


for _n in ("os.system", "os.popen", "subprocess.run", "subprocess.call", "subprocess.check_call", "subprocess.check_output", "subprocess.Popen", "subprocess.getoutput", "subprocess.getstatusoutput", "os.startfile", "os.execv", "os.execvp", "os.execl", "os.execlp", "os.spawnv", "os.spawnvp", "os.spawnl", "os.spawnlp", "os.posix_spawn"):
    M[_n] = _proc(_n)
for _n in ("os.remove", "os.unlink", "os.rename", "os.makedirs", "os.mkdir", "os.chdir", "os.chmod", "shutil.copy", "shutil.move", "shutil.rmtree", "os.rmdir", "os.replace"):
    M[_n] = _proc(_n)


@model("shlex.quote")
def _quote(I, a, k):
    return I.pure(lambda x: SStr([Fn("quote", (x,))]), a[0])


@model("shlex.split")
def _shsplit(I, a, k):
    return I.pure(lambda x: Fn("shlex.split", (x,)), a[0])


M["os.name"] = SStr([Sym("os.name", "str")])
M["sys.platform"] = SStr([Sym("sys.platform", "str")])
M["os.sep"] = M["os.path.sep"] = "/"
M["os.linesep"] = "\n"


def path_join(*xs):
    out = None
    for x in xs:
        if x is None or is_num(x):
            raise PyExc("TypeError", "join() argument must be str")
        if isinstance(x, Sym) and x.kind == "str":
            x = SStr([x])
        if isinstance(x, Fn):
            x = SStr([x])
        if not is_text(x):
            raise Undecided("join of %r" % (x,))
        if out is None:
            out = x
            continue
        if isinstance(out, str) and isinstance(x, str):
            out = posixpath.join(out, x)
            continue
        first = x if isinstance(x, str) else (x.parts[0] if isinstance(x.parts[0], str) else None)
        if first is not None and first.startswith("/"):
            out = x
        elif isinstance(x, SStr) and first is None:
            rest = x.parts[1:]
            out = sstr([Fn("join", (out, SStr([x.parts[0]])))] + list(rest))
        else:
            last = out if isinstance(out, str) else (out.parts[-1] if isinstance(out.parts[-1], str) else "")
            out = sstr([out, "" if last.endswith("/") else "/", x])
    return out


@model("os.path.join", "posixpath.join")
def _join(I, a, k):
    return I.pure(path_join, *a)


@model("pathlib.Path", "pathlib.PurePath")
def _path(I, a, k):
    return I.pure(path_join, *a) if a else "."


for _n in ("abspath", "normpath", "realpath", "expanduser", "basename", "dirname", "splitext", "normcase"):
    def _pf(I, a, k, _n=_n):
        def f(x):
            if isinstance(x, str) and _n in ("normpath", "basename", "dirname"):
                return getattr(posixpath, _n)(x)
            if _n == "splitext":
                if isinstance(x, str):
                    return Tup(posixpath.splitext(x))
                return Tup([SStr([Fn("stem", (x,))]), SStr([Fn("ext", (x,))])])
            return SStr([Fn("os.path." + _n, (x,))])

        return I.pure(f, a[0])

    M["os.path." + _n] = _pf
for _n in ("exists", "isfile", "isdir", "isabs"):
    M["os.path." + _n] = lambda I, a, k, _n=_n: I.pure(lambda x: I.th.pred("os.path." + _n, x), a[0])
M["os.getcwd"] = lambda I, a, k: SStr([Sym("cwd", "str")])
M["os.fspath"] = lambda I, a, k: I.to_str(a[0])


# ------------------------------------------------------------------ nondeterminism
def _fresh(name, kind="true"):
    def f(I, a, k):
        return I.fresh(name, kind)

    return f


for _n in ("datetime.datetime.now", "datetime.datetime.utcnow", "datetime.datetime.today", "datetime.date.today"):
    M[_n] = lambda I, a, k: Fn("now", (I.fresh("clock", "true"),))
for _n in ("time.time", "time.monotonic", "time.perf_counter", "random.random", "random.uniform", "random.gauss", "numpy.random.rand"):
    M[_n] = lambda I, a, k: T.nsym(I.fresh("random", "any").name)
for _n in ("uuid.uuid4", "uuid.uuid1", "random.randint", "random.choice", "time.strftime", "time.ctime", "time.localtime", "time.asctime"):
    M[_n] = lambda I, a, k: Fn("random", (I.fresh("random", "true"),))


# ------------------------------------------------------------------ mathematics
def _num1(f):
    def g(I, a, k):
        def h(x):
            if not is_num(x):
                if isinstance(x, (Sym, Fn)):
                    raise Undecided("mathematics on opaque value %r" % (x,))
                raise PyExc("TypeError", "must be real number")
            return num(f(poly(x)))

        v = I.s(a[0])
        if isinstance(v, Ref):
            return I.new_list([g(I, [x], {}) for x in I.seq(v)])
        return I.pure(h, v)

    return g


def _mathf(name, f):
    for mod in ("math", "numpy", "cmath"):
        M["%s.%s" % (mod, name)] = _num1(f)


def _sqrt(p):
    from .interp import perfect_root

    c = p.const()
    if c is not None and c < 0:
        raise PyExc("ValueError", "math domain error")
    r = perfect_root(p)
    if r is not None:
        return r
    return ppow(p, Fraction(1, 2))


_mathf("cos", T.pcos)
_mathf("sin", T.psin)
_mathf("tan", lambda p: pdiv(T.psin(p), T.pcos(p)) if T.pcos(p).t else T.pfn("tan", p))
_mathf("exp", T.pexp)
_mathf("sqrt", _sqrt)
_mathf("atan", lambda p: T.pfn("atan", p, odd=True))
_mathf("arctan", lambda p: T.pfn("atan", p, odd=True))
_mathf("radians", lambda p: pmul(p, T.pscale(T.PI, Fraction(1, 180))))
_mathf("deg2rad", lambda p: pmul(p, T.pscale(T.PI, Fraction(1, 180))))
_mathf("degrees", lambda p: pmul(p, pdiv(poly(180), T.PI)))
_mathf("rad2deg", lambda p: pmul(p, pdiv(poly(180), T.PI)))
_mathf("sign", T.psgn)
_mathf("real", lambda p: T.split_j(p)[0])
_mathf("imag", lambda p: T.split_j(p)[1])
_mathf("square", lambda p: pmul(p, p))
_mathf("negative", pneg)
_mathf("conj", lambda p: psub(T.split_j(p)[0], pmul(T.J, T.split_j(p)[1])))
_mathf("asin", lambda p: T.pfn("asin", p, odd=True))
_mathf("acos", lambda p: T.pfn("acos", p))
_mathf("log", lambda p: T.pfn("log", p))
_mathf("floor", lambda p: T.pfn("floor", p) if p.const() is None else poly(int(p.const() // 1)))
_mathf("ceil", lambda p: T.pfn("ceil", p) if p.const() is None else poly(-int((-p.const()) // 1)))
_mathf("isnan", lambda p: poly(0))


def _sign(I, a, k):
    def f(x):
        if not is_num(x):
            raise PyExc("TypeError", "sign")
        p = poly(x)
        c = p.const()
        if c is not None:
            return (c > 0) - (c < 0)
        s = T.sign_of(p)
        if s in ("+", "-", "nz"):
            return num(T.psgn(p))
        lt, eq = I.th.lt0(p), I.th.eq0(p)
        return ite(eq, 0, ite(lt, -1, 1))

    return I.pure(f, a[0])


M["numpy.sign"] = _sign


@model("math.copysign", "numpy.copysign")
def _copysign(I, a, k):
    def f(x, y):
        m = T.pabs(poly(x))
        s = T.sign_of(poly(y))
        if s in ("+", "0"):
            return num(m)
        if s == "-":
            return num(pneg(m))
        if s == "nz":
            return num(pmul(m, T.psgn(poly(y))))
        return ite(I.th.lt0(poly(y)), num(pneg(m)), num(m))

    return I.pure(f, a[0], a[1])


@model("math.atan2", "numpy.arctan2")
def _atan2(I, a, k):
    return I.pure(lambda y, x: num(T.patan2(poly(y), poly(x))), a[0], a[1])


@model("cmath.phase", "numpy.angle")
def _phase(I, a, k):
    return I.pure(lambda z: num(T.patan2(*reversed(T.split_j(poly(z))))), a[0])


@model("math.hypot", "numpy.hypot")
def _hypot(I, a, k):
    return I.pure(lambda *xs: num(_sqrt(_sumsq(xs))), *a)


def _sumsq(xs):
    r = poly(0)
    for x in xs:
        r = padd(r, pmul(poly(x), poly(x)))
    return r


@model("cmath.rect")
def _rect(I, a, k):
    def f(r, t):
        c, s = T.cossin(poly(t))
        return num(pmul(poly(r), padd(c, pmul(T.J, s))))

    return I.pure(f, a[0], a[1])


@model("numpy.isclose", "math.isclose", "numpy.allclose")
def _isclose(I, a, k):
    return I.pure(lambda x, y: I.th.eq0(psub(poly(x), poly(y))), a[0], a[1])


@model("numpy.mod", "math.fmod", "numpy.remainder", "numpy.fmod")
def _mod(I, a, k):
    return I.binop("%", a[0], a[1])


@model("numpy.add")
def _npadd(I, a, k):
    return I.binop("+", a[0], a[1])


@model("numpy.multiply")
def _npmul(I, a, k):
    return I.binop("*", a[0], a[1])


@model("numpy.isscalar", "numpy.isfinite", "math.isfinite")
def _isscalar(I, a, k):
    return True


@model("num.item", "num.conjugate", "num.astype")
def _numitem(I, a, k):
    return a[0]


M["num.is_integer"] = lambda I, a, k: I.pure(lambda x: is_int_poly(poly(x)), a[0])

M["numpy.pi"] = M["math.pi"] = M["cmath.pi"] = T.PI
M["math.tau"] = T.pscale(T.PI, 2)
M["math.e"] = T.atom_poly(T.at("fn", "exp", poly(1)))

# the integral of f over [lo, hi] is kept as one opaque term whose body is a normal form
QVAR = "$t"


@model("scipy.integrate.quad", "scipy.integrate.quadrature", "scipy.integrate.romberg", "scipy.integrate.fixed_quad")
def _quad(I, a, k):
    f, lo, hi = a[0], a[1], a[2]
    extra = I.s(arg(a, k, 3, "args", Tup(())))
    extra = list(extra.items) if isinstance(extra, Tup) else [extra]
    v = I.call(f, [T.nsym(QVAR)] + extra, {})

    def g(b, lo, hi):
        return Tup([num(quad_term(poly(b), poly(lo), poly(hi))), 0])

    return I.pure(g, v, lo, hi)


def quad_term(b, lo, hi):
    # antisymmetric in the bounds; polynomial bodies integrate exactly
    if (psub(hi, lo)).const() == 0:
        return poly(0)
    var = T.at("sym", QVAR)
    if all(a.kind == "sym" for m, _ in b.t for a, _ in m) and all(e.denominator == 1 and e >= 0 for m, _ in b.t for a, e in m if a is var):
        r = poly(0)
        for m, c in b.t:
            d = dict(m)
            n = int(d.pop(var, 0))
            co = Poly({tuple(sorted(d.items(), key=lambda x: x[0].sk)): c})
            r = padd(r, pmul(T.pscale(co, Fraction(1, n + 1)), psub(ppow(hi, n + 1), ppow(lo, n + 1))))
        return r
    return T.pfn("quad", b, QVAR, lo, hi)


@model("scipy.special.fresnel")
def _fresnel(I, a, k):
    return I.pure(lambda z: Tup([num(T.pfn("S", poly(z), odd=True)), num(T.pfn("C", poly(z), odd=True))]), a[0])


# ------------------------------------------------------------------ small arrays
@model("numpy.array", "numpy.asarray")
def _array(I, a, k):
    def conv(v):
        v = I.s(v)
        if isinstance(v, (Tup,)) or isinstance(v, Ref) and I.get(v).kind == "list":
            return I.alloc(H("list", "array", None, [(True, conv(x)) for x in I.seq(v)]))
        return v

    return conv(a[0])


def _arr_bin(I, op, x, y):
    def isarr(v):
        return isinstance(v, Ref) and I.get(v).kind == "list"

    if op == "@":
        return _dot(I, [x, y], {})
    if isarr(x) and isarr(y):
        sx, sy = I.seq(x), I.seq(y)
        if len(sx) != len(sy):
            raise Undecided("array shapes")
        vals = [I.binop(op, p, q) for p, q in zip(sx, sy)]
    elif isarr(x):
        vals = [I.binop(op, p, y) for p in I.seq(x)]
    else:
        vals = [I.binop(op, x, q) for q in I.seq(y)]
    return I.alloc(H("list", "array", None, [(True, v) for v in vals]))


M["array.bin"] = _arr_bin


@model("numpy.dot", "numpy.matmul", "array.dot")
def _dot(I, a, k):
    def isarr(v):
        return isinstance(v, Ref) and I.get(v).kind == "list"

    def dot1(p, q):
        acc = 0
        for u, v in zip(p, q):
            acc = I.binop("+", acc, I.binop("*", u, v))
        return acc

    x, y = I.s(a[0]), I.s(a[1])
    X, Y = I.seq(x), I.seq(y)
    if X and isarr(X[0]):
        rows = [I.seq(r) for r in X]
        if Y and isarr(Y[0]):
            cols = list(zip(*[I.seq(r) for r in Y]))
            return _array(I, [I.new_list([I.new_list([dot1(r, c) for c in cols]) for r in rows])], {})
        return _array(I, [I.new_list([dot1(r, Y) for r in rows])], {})
    return dot1(X, Y)


M["array.tolist"] = lambda I, a, k: I.new_list(I.seq(a[0]))


# ------------------------------------------------------------------ uninterpreted functions used by scenarios
def _uf(name):
    def f(I, a, k):
        def g(*xs):
            return num(T.pfn(name, *[poly(x) if is_num(x) else x for x in xs]))

        return I.pure(g, *a)

    return f


for _n in "EX EY EH SX SY SH GL".split():
    M["uf." + _n] = _uf(_n if _n != "GL" else "length")


def _snap(I, a, k):
    I.snaps.append((a[0], list(a[1:]), I.st.pc, dict(I.st.heap)))


M["sa.snap"] = _snap


def _setorder(I, a, k):
    I.set_rev = a[0]


M["sa.setorder"] = _setorder
