"""Abstract values: gated values (multi-terminal decision diagrams), polynomial/trigonometric normal
forms for numbers, and concatenation normal forms for text.

Nothing in this module runs the analysed program; it only defines the value domain of the analysis.
"""
import cmath
import hashlib
import math
from fractions import Fraction


class Undecided(Exception):
    """The analysis cannot decide something (unmodelled construct, resource bound)."""


class Diverges(Undecided):
    """A loop was shown to repeat a state: it never ends."""

    def __init__(self, loc, pc):
        Undecided.__init__(self, "loop at %s never ends" % (loc,))
        self.loc, self.pc = loc, pc


# --------------------------------------------------------------------------------------------------
# symbols and atoms


class At:
    """An indivisible numeric term (interned)."""

    __slots__ = ("kind", "args", "sk")
    _tab = {}

    def __repr__(self):
        return self.sk


def at(kind, *args):
    k = (kind,) + tuple(vkey(a) for a in args)
    a = At._tab.get(k)
    if a is None:
        a = At()
        a.kind, a.args = kind, args
        if kind == "sym":
            a.sk = str(args[0])
        elif kind in ("pi", "j"):
            a.sk = kind
        elif kind == "P":
            a.sk = "(%s)" % show(args[0])
        elif kind == "num":
            a.sk = str(args[0])
        else:
            a.sk = "%s(%s)" % (kind if kind != "fn" else args[0], ",".join(show(x) for x in (args if kind != "fn" else args[1:])))
        At._tab[k] = a
    return a


SIGN = {}  # numeric symbol name -> '+', '-', 'nz'


class Sym:
    """An unknown non-numeric value (kind 'any': number or text unknown, 'str': text)."""

    __slots__ = ("name", "kind")

    def __init__(self, name, kind="any"):
        self.name, self.kind = name, kind

    def __eq__(self, o):
        return isinstance(o, Sym) and o.name == self.name and o.kind == self.kind

    def __hash__(self):
        return hash(("Sym", self.name, self.kind))

    def __repr__(self):
        return "$" + self.name


# --------------------------------------------------------------------------------------------------
# polynomials


def _norm(q):
    return int(q) if q.denominator == 1 else q


class Poly:
    __slots__ = ("t", "_h")

    def __init__(self, d):
        self.t = tuple(sorted(((m, c) for m, c in d.items() if c != 0), key=lambda x: _msk(x[0])))
        self._h = hash(self.t)

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __hash__(self):
        return self._h

    def __repr__(self):
        return show(self)

    def const(self):
        if not self.t:
            return Fraction(0)
        if len(self.t) == 1 and self.t[0][0] == ():
            return self.t[0][1]
        return None

    def atoms(self):
        return {a for m, _ in self.t for a, _ in m}


def _msk(m):
    return (len(m), tuple((a.sk, str(e)) for a, e in m))


def poly(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, (int, Fraction)):
        return Poly({(): Fraction(x)})
    raise Undecided("not a number: %r" % (x,))


def num(p):
    """Poly -> canonical leaf (int, Fraction or Poly)."""
    c = p.const()
    if c is not None:
        return _norm(c)
    return p


def atom_poly(a, e=1):
    return Poly({((a, Fraction(e)),): Fraction(1)})


def nsym(name, sign=None):
    if sign:
        SIGN[name] = sign
    return atom_poly(at("sym", name))


PI = atom_poly(at("pi"))
J = atom_poly(at("j"))


def padd(a, b):
    d = dict(a.t)
    for m, c in b.t:
        d[m] = d.get(m, 0) + c
    return Poly(d)


def pneg(a):
    return Poly({m: -c for m, c in a.t})


def psub(a, b):
    return padd(a, pneg(b))


def pscale(a, k):
    k = Fraction(k)
    return Poly({m: c * k for m, c in a.t})


def _mono_mul(m1, m2):
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, Fraction(0)) + e
    return d


_LIMIT = 6000


def _reduce(d, c):
    """monomial dict -> Poly with rewrite rules applied"""
    extra = []
    out = {}
    for a, e in d.items():
        if e == 0:
            continue
        if a.kind == "j" and e.denominator == 1:
            e = int(e) % 4
            if e >= 2:
                c = -c
                e -= 2
            if e == 0:
                continue
            out[a] = Fraction(e)
        elif a.kind == "sgn" and e.denominator == 1:
            if int(e) % 2:
                out[a] = Fraction(1)
        elif a.kind == "sin" and e.denominator == 1 and e >= 2:
            k = int(e) // 2
            cc = at("cos", a.args[0])
            one = psub(poly(1), atom_poly(cc, 2))
            for _ in range(k):
                extra.append(one)
            if int(e) % 2:
                out[a] = Fraction(1)
        elif a.kind in ("P", "num"):
            n = math.floor(e)
            if n > 0:
                base = a.args[0] if a.kind == "P" else poly(a.args[0])
                for _ in range(n):
                    extra.append(base)
                e = e - n
            elif a.kind == "num" and n < 0:
                extra.append(poly(1 / Fraction(a.args[0]) ** (-n)))
                e = e - n
            if e:
                out[a] = Fraction(e)
        else:
            out[a] = e
    p = Poly({tuple(sorted(out.items(), key=lambda x: x[0].sk)): c})
    for x in extra:
        p = pmul(p, x)
    return p


def _plain(m):
    return all(a.kind in ("sym", "pi", "cos", "fn") for a, _ in m)


def pmul(a, b):
    ca, cb = a.const(), b.const()
    if ca is not None:
        return pscale(b, ca)
    if cb is not None:
        return pscale(a, cb)
    if len(a.t) * len(b.t) > _LIMIT:
        raise Undecided("polynomial too large")
    acc = {}
    for m1, c1 in a.t:
        for m2, c2 in b.t:
            d = _mono_mul(m1, m2)
            r = _reduce(d, c1 * c2)
            for m, c in r.t:
                acc[m] = acc.get(m, 0) + c
    return Poly(acc)


def ppow(a, e):
    """a ** e with e a Fraction"""
    e = Fraction(e)
    c = a.const()
    if c is not None:
        if e.denominator == 1:
            if c == 0 and e < 0:
                raise ZeroDivisionError
            return poly(c ** int(e))
        if c == 0:
            return poly(0)
        if c > 0:
            return _const_pow(c, e)
        return atom_poly(at("num", c), e)
    if len(a.t) == 1:
        m, k = a.t[0]
        r = Poly({tuple((x, y * e) for x, y in m): Fraction(1)})
        # re-normalise
        r = _reduce({x: y * e for x, y in m}, Fraction(1))
        if k != 1:
            if k < 0 and e.denominator != 1:
                return atom_poly(at("P", a), e)
            r = pmul(r, ppow(poly(k), e))
        return r
    if e.denominator == 1 and e > 0:
        r = a
        for _ in range(int(e) - 1):
            r = pmul(r, a)
        return r
    m, q, _ = content(a, "all" if e.denominator == 1 else "+")
    if m:
        return pmul(_reduce({x: y * e for x, y in m.items()}, Fraction(1)), ppow(q, e))
    # make the base canonical: leading coefficient 1
    k = a.t[0][1]
    base = pscale(a, 1 / abs(k)) if e.denominator != 1 else pscale(a, 1 / k)
    r = atom_poly(at("P", base), e)
    kk = abs(k) if e.denominator != 1 else k
    return pmul(r, ppow(poly(kk), e))


def _const_pow(c, e):
    n, d = e.numerator, e.denominator
    if d == 2:
        s = _isqrt(c.numerator), _isqrt(c.denominator)
        if s[0] is not None and s[1] is not None:
            return poly(Fraction(s[0], s[1]) ** n)
    return _reduce({at("num", c): e}, Fraction(1))


def _isqrt(n):
    r = math.isqrt(n)
    return r if r * r == n else None


def pdiv(a, b):
    c = b.const()
    if c is not None:
        if c == 0:
            raise ZeroDivisionError
        return pscale(a, 1 / c)
    if len(b.t) > 1 and a.t:
        # exact multiple?
        m0, c0 = a.t[0]
        for m1, c1 in b.t:
            dd = dict(m0)
            for x, e in m1:
                dd[x] = dd.get(x, Fraction(0)) - e
            q = _reduce(dd, c0 / c1)
            if pmul(q, b) == a:
                return q
    return pmul(a, ppow(b, -1))


def atom_sign(a):
    """'+', '-', 'nz' or None"""
    if a.kind == "sym":
        return SIGN.get(a.args[0])
    if a.kind in ("pi", "num"):
        return "+"
    if a.kind == "sgn":
        return "nz"
    if a.kind == "P":
        return sign_of(a.args[0])
    if a.kind == "fn" and a.args[0] in ("exp", "length"):
        return "+"
    return None


def content(p, mode):
    """common monomial m of p (exponents may be negative): (m, p / m, sign of m); mode "+": atoms known positive,
    "nz": atoms known not to be zero, "sgn": atoms of known sign, "all": every atom"""
    if len(p.t) < 2:
        return {}, p, 1
    atoms = {}
    for mono, _ in p.t:
        for a, e in mono:
            atoms.setdefault(a, []).append(e)
    m, sg = {}, 1
    n = len(p.t)
    for a, es in atoms.items():
        if a.kind in ("j", "sgn", "num", "cos", "sin"):
            continue
        e = min(es) if len(es) == n else min(min(es), Fraction(0))
        if e == 0:
            continue
        s = atom_sign(a)
        if mode == "+" and s != "+" or mode == "sgn" and s not in ("+", "-") or mode == "nz" and s is None and not e < 0:
            continue
        if s == "-" and int(e) % 2:
            sg = -sg
        m[a] = e
    if not m:
        return {}, p, 1
    inv = _reduce({a: -e for a, e in m.items()}, Fraction(1))
    if len(inv.t) != 1:
        return {}, p, 1
    return m, pmul(p, inv), sg


def lead_neg(p):
    return bool(p.t) and p.t[0][1] < 0


def psgn(p):
    """sign of p as a Poly (const +-1/0 or sgn atoms); assumes factors nonzero"""
    c = p.const()
    if c is not None:
        return poly((c > 0) - (c < 0))
    s = sign_of(p)
    if s in ("+", "-"):
        return poly(1 if s == "+" else -1)
    if len(p.t) == 1:
        m, k = p.t[0]
        r = poly(1 if k > 0 else -1)
        for a, e in m:
            if e.denominator != 1:
                continue
            if int(e) % 2 == 0:
                continue
            r = pmul(r, _atom_sgn(a))
        return r
    m, q, g = content(p, "sgn")
    if m:
        return pscale(psgn(q), g)
    neg = lead_neg(p)
    q = pneg(p) if neg else p
    q = pscale(q, 1 / abs(q.t[0][1]))
    r = atom_poly(at("sgn", q))
    return pneg(r) if neg else r


def _atom_sgn(a):
    if a.kind == "sym":
        s = SIGN.get(a.args[0])
        if s == "+":
            return poly(1)
        if s == "-":
            return poly(-1)
    if a.kind in ("pi", "num"):
        return poly(1)
    if a.kind == "sgn":
        return atom_poly(a)
    if a.kind == "P":
        return psgn(a.args[0])
    if a.kind == "fn" and a.args[0] in ("quad", "exp", "length"):
        return poly(1)
    return atom_poly(at("sgn", atom_poly(a)))


def pabs(p):
    c = p.const()
    if c is not None:
        return poly(abs(c))
    return pmul(p, psgn(p))


def sign_of(p):
    """'+', '-', '0', 'nz' or None"""
    c = p.const()
    if c is not None:
        return "0" if c == 0 else ("+" if c > 0 else "-")
    if all(x.kind == "pi" for m, _ in p.t for x, _ in m):
        v = sum(float(k) * math.prod(math.pi ** float(e) for _, e in m) for m, k in p.t)
        if abs(v) > 1e-9 * sum(abs(float(k)) for _, k in p.t):
            return "+" if v > 0 else "-"
    out = None
    for m, k in p.t:
        s = "+" if k > 0 else "-"
        for a, e in m:
            if e.denominator != 1:
                continue  # roots taken positive
            if a.kind == "sym":
                t = SIGN.get(a.args[0])
            elif a.kind in ("pi", "num"):
                t = "+"
            elif a.kind == "sgn":
                t = "nz"
            elif a.kind == "P":
                t = sign_of(a.args[0])
                if t is None and e < 0:
                    t = "nz"
            elif a.kind == "fn" and a.args[0] in ("exp", "length"):
                t = "+"
            else:
                t = None
            if t is None and int(e) % 2 == 0:
                return None
            if t is None:
                return None
            if int(e) % 2 == 0:
                continue
            if t == "nz":
                s = "nz"
            elif t == "-" and s != "nz":
                s = "-" if s == "+" else "+"
        if len(p.t) == 1:
            return s
        if s == "nz":
            return None
        if out is None:
            out = s
        elif out != s:
            return None
    return out


# trigonometry -------------------------------------------------------------------------------------


def cossin(p):
    c, s = poly(1), poly(0)
    for m, k in p.t:
        cu, su = _unit(m, k)
        c, s = psub(pmul(c, cu), pmul(s, su)), padd(pmul(s, cu), pmul(c, su))
    return c, s


_PI_ATOM = at("pi")


def _unit(m, k):
    if m == ((_PI_ATOM, Fraction(1)),):
        q = k % 2
        if (2 * q).denominator == 1:
            n = int(2 * q)
            return [(poly(1), poly(0)), (poly(0), poly(1)), (poly(-1), poly(0)), (poly(0), poly(-1))][n]
        if q > 1:
            cu, su = _unit(m, 2 - q)
            return cu, pneg(su)
        u = Poly({m: q})
        return atom_poly(at("cos", u)), atom_poly(at("sin", u))
    neg = k < 0
    k = abs(k)
    n, den = k.numerator, k.denominator
    u = Poly({m: Fraction(1, den)})
    if n > 6:
        u, n = Poly({m: k}), 1
    cu, su = atom_poly(at("cos", u)), atom_poly(at("sin", u))
    c, s = cu, su
    for _ in range(n - 1):
        c, s = psub(pmul(c, cu), pmul(s, su)), padd(pmul(s, cu), pmul(c, su))
    return c, (pneg(s) if neg else s)


def pcos(p):
    return cossin(p)[0]


def psin(p):
    return cossin(p)[1]


def common_angles(p):
    """p with the cosines and sines of multiples of one angle expressed by one common divisor"""
    groups = {}
    for m, _ in p.t:
        for a, _ in m:
            if a.kind in ("cos", "sin") and len(a.args[0].t) == 1:
                mono, k = a.args[0].t[0]
                groups.setdefault(mono, set()).add(k)
    div = {}
    for mono, ks in groups.items():
        if len(ks) > 1:
            n, d = 0, 1
            for k in ks:
                d = d * k.denominator // math.gcd(d, k.denominator)
            for k in ks:
                n = math.gcd(n, int(k * d))
            if max(abs(k) for k in ks) * d <= 24 * n:
                div[mono] = Fraction(n, d)
    if not div:
        return p
    out = poly(0)
    for m, c in p.t:
        r = poly(c)
        for a, e in m:
            x = atom_poly(a)
            if a.kind in ("cos", "sin") and len(a.args[0].t) == 1 and a.args[0].t[0][0] in div:
                mono, k = a.args[0].t[0]
                g = div[mono]
                n = int(k / g)
                u = Poly({mono: g})
                cu, su = atom_poly(at("cos", u)), atom_poly(at("sin", u))
                cc, ss = poly(1), poly(0)
                for _ in range(abs(n)):
                    cc, ss = psub(pmul(cc, cu), pmul(ss, su)), padd(pmul(ss, cu), pmul(cc, su))
                x = cc if a.kind == "cos" else ss if n > 0 else pneg(ss)
            r = pmul(r, ppow(x, e))
        out = padd(out, r)
    return out


def vanishes(p):
    """is p zero as a rational and trigonometric expression?"""
    for _ in range(12):
        if not p.t:
            return True
        den = {}
        for m, _ in p.t:
            for a, e in m:
                if a.kind == "P" and e < 0 and e.denominator == 1:
                    den[a] = min(den.get(a, 0), e)
        if not den:
            break
        a, e = sorted(den.items(), key=lambda x: x[0].sk)[0]
        out = poly(0)
        for m, c in p.t:
            out = padd(out, _reduce(_mono_mul(m, ((a, -e),)), c))
        p = out
    return not p.t or not common_angles(p).t


def pfn(name, *args, odd=False):
    """opaque function application"""
    if odd and isinstance(args[0], Poly) and lead_neg(args[0]):
        return pneg(atom_poly(at("fn", name, pneg(args[0]), *args[1:])))
    return atom_poly(at("fn", name, *args))


def split_j(p):
    re, im = {}, {}
    for m, c in p.t:
        mm = [(a, e) for a, e in m if a.kind != "j"]
        (im if len(mm) != len(m) else re)[tuple(mm)] = c
    return Poly(re), Poly(im)


def pexp(p):
    re, im = split_j(p)
    c, s = cossin(im)
    r = padd(c, pmul(J, s))
    if re.t:
        r = pmul(atom_poly(at("fn", "exp", re)), r)
    return r


def patan2(y, x):
    if not y.t and sign_of(x) == "+":
        return poly(0)
    return pfn("atan2", y, x)


def psubst(p, table):
    """substitute symbols (name -> Poly) in p"""
    out = poly(0)
    for m, c in p.t:
        r = poly(c)
        for a, e in m:
            r = pmul(r, ppow(_asubst(a, table), e))
        out = padd(out, r)
    return out


def _asubst(a, table):
    if a.kind == "sym":
        return table.get(a.args[0], atom_poly(a))
    if a.kind in ("pi", "j", "num"):
        return atom_poly(a)
    args = [psubst(x, table) if isinstance(x, Poly) else x for x in a.args]
    if a.kind == "cos":
        return pcos(args[0])
    if a.kind == "sin":
        return psin(args[0])
    if a.kind == "sgn":
        return psgn(args[0])
    if a.kind == "P":
        return args[0]
    return atom_poly(at(a.kind, *args))


# --------------------------------------------------------------------------------------------------
# text


class SStr:
    """normalised concatenation; parts: str constants, Sym of kind str, StrOf(value), Fn(name,args)"""

    __slots__ = ("parts", "_h")

    def __init__(self, parts):
        self.parts = tuple(parts)
        self._h = hash(("SStr",) + tuple(vkey(p) for p in self.parts))

    def __eq__(self, o):
        return isinstance(o, SStr) and self.parts == o.parts

    def __hash__(self):
        return self._h

    def __repr__(self):
        return "<" + "+".join(repr(p) for p in self.parts) + ">"


class StrOf:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, StrOf) and same(self.v, o.v)

    def __hash__(self):
        return hash(("StrOf", vkey(self.v)))

    def __repr__(self):
        return "str(%s)" % show(self.v)


class Fn:
    """opaque pure function of values"""

    __slots__ = ("name", "args")

    def __init__(self, name, args):
        self.name, self.args = name, tuple(args)

    def __eq__(self, o):
        return isinstance(o, Fn) and o.name == self.name and len(o.args) == len(self.args) and all(same(x, y) for x, y in zip(self.args, o.args))

    def __hash__(self):
        return hash(("Fn", self.name) + tuple(vkey(a) for a in self.args))

    def __repr__(self):
        return "%s(%s)" % (self.name, ",".join(show(a) for a in self.args))


def sstr(parts):
    out = []
    for p in parts:
        if isinstance(p, SStr):
            for q in p.parts:
                _push(out, q)
        else:
            _push(out, p)
    if not out:
        return ""
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return SStr(out)


def _push(out, p):
    if isinstance(p, str):
        if not p:
            return
        if out and isinstance(out[-1], str):
            out[-1] = out[-1] + p
            return
    out.append(p)


# --------------------------------------------------------------------------------------------------
# other leaves


class Unbound:
    def __repr__(self):
        return "UNBOUND"


UNBOUND = Unbound()


class Tup:
    __slots__ = ("items", "_h")

    def __init__(self, items):
        self.items = tuple(items)
        self._h = hash(("Tup",) + tuple(vkey(i) for i in self.items))

    def __eq__(self, o):
        return isinstance(o, Tup) and len(o.items) == len(self.items) and all(same(a, b) for a, b in zip(self.items, o.items))

    def __hash__(self):
        return self._h

    def __repr__(self):
        return "(" + ", ".join(show(i) for i in self.items) + ")"


class Ref:
    __slots__ = ("a",)
    _tab = {}

    def __new__(cls, a):
        r = cls._tab.get(a)
        if r is None:
            r = object.__new__(cls)
            r.a = a
            cls._tab[a] = r
        return r

    def __repr__(self):
        return "@%d" % self.a


def vkey(v):
    if v is None:
        return ("N",)
    t = type(v)
    if t is bool:
        return ("b", v)
    if t is int or t is Fraction:
        return ("n", v)
    if t is str:
        return ("s", v)
    if t is Ite:
        return ("i", id(v))
    if t is tuple:
        return ("t",) + tuple(vkey(x) for x in v)
    return (t.__name__, v)


def same(a, b):
    if a is b:
        return True
    return vkey(a) == vkey(b)


def show(v, depth=0):
    if isinstance(v, Poly):
        if not v.t:
            return "0"
        out = []
        for m, c in v.t[:12]:
            f = "*".join(a.sk + ("" if e == 1 else "^%s" % e) for a, e in m)
            if not f:
                out.append(str(c))
            elif c == 1:
                out.append(f)
            elif c == -1:
                out.append("-" + f)
            else:
                out.append("%s*%s" % (c, f))
        s = " + ".join(out)
        if len(v.t) > 12:
            s += " + ...(%d terms)" % len(v.t)
        return s if len(s) < 400 else s[:400] + "..."
    if isinstance(v, Ite):
        if depth > 4:
            return "?{...}"
        return "(%s ? %s : %s)" % (atom_name(v.var), show(v.hi, depth + 1), show(v.lo, depth + 1))
    return repr(v)


# --------------------------------------------------------------------------------------------------
# decision diagrams

ATOMS = []  # index -> key
_ATOM_IX = {}


def atom_index(key):
    k = tuple(vkey(x) for x in key)
    i = _ATOM_IX.get(k)
    if i is None:
        i = len(ATOMS)
        ATOMS.append(key)
        _ATOM_IX[k] = i
        if i > 4000:
            raise Undecided("too many branch predicates")
        return i, True
    return i, False


def atom_name(i):
    k = ATOMS[i]
    return "%s(%s)" % (k[0], ",".join(show(x) for x in k[1:]))


class Ite:
    __slots__ = ("var", "hi", "lo")
    _tab = {}

    def __repr__(self):
        return show(self)


def mk(var, hi, lo):
    if same(hi, lo):
        return hi
    k = (var, vkey(hi), vkey(lo))
    n = Ite._tab.get(k)
    if n is None:
        n = object.__new__(Ite)
        n.var, n.hi, n.lo = var, hi, lo
        Ite._tab[k] = n
        if len(Ite._tab) > 3000000:
            raise Undecided("decision diagram too large")
    return n


def lift(f, *args):
    """apply a pure function to the leaves of gated values"""
    memo = {}

    def go(args):
        top = None
        for a in args:
            if type(a) is Ite and (top is None or a.var < top):
                top = a.var
        if top is None:
            return f(*args)
        k = tuple(vkey(a) for a in args)
        r = memo.get(k, memo)
        if r is memo:
            hi = go(tuple(a.hi if type(a) is Ite and a.var == top else a for a in args))
            lo = go(tuple(a.lo if type(a) is Ite and a.var == top else a for a in args))
            r = ite_general(top, hi, lo)
            memo[k] = r
        return r

    return go(args)


def ite_general(var, hi, lo):
    """node for var with children that may contain smaller variables"""
    thi = hi.var if type(hi) is Ite else None
    tlo = lo.var if type(lo) is Ite else None
    if (thi is None or thi > var) and (tlo is None or tlo > var):
        return mk(var, hi, lo)
    return ite(mk(var, True, False), hi, lo)


def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if same(a, b):
        return a
    memo = {}

    def go(c, a, b):
        if c is True:
            return a
        if c is False:
            return b
        if same(a, b):
            return a
        k = (vkey(c), vkey(a), vkey(b))
        r = memo.get(k, memo)
        if r is not memo:
            return r
        top = min(x.var for x in (c, a, b) if type(x) is Ite)
        h = [x.hi if type(x) is Ite and x.var == top else x for x in (c, a, b)]
        l = [x.lo if type(x) is Ite and x.var == top else x for x in (c, a, b)]
        r = mk(top, go(*h), go(*l))
        memo[k] = r
        return r

    return go(c, a, b)


def b_and(a, b):
    return ite(a, b, False)


def b_or(a, b):
    return ite(a, True, b)


def b_not(a):
    return ite(a, False, True)


def b_imp(a, b):
    return ite(a, b, True)


def is_plain(v):
    """a value that is data, not code"""
    return v is None or isinstance(v, (bool, int, Fraction, Poly, str, SStr, Tup, Sym))


class _DC:
    pass


DC = _DC()


def simp(v, care):
    """simplify v knowing `care` holds"""
    if type(v) is not Ite or care is True:
        return v
    if care is False:
        return v
    memo = {}

    def go(v, care):
        if care is False:
            return DC
        if type(v) is not Ite or care is True:
            return v
        k = (vkey(v), vkey(care))
        r = memo.get(k, memo)
        if r is not memo:
            return r
        top = min(v.var, care.var)
        ch = care.hi if care.var == top else care
        cl = care.lo if care.var == top else care
        if v.var == top:
            h, l = go(v.hi, ch), go(v.lo, cl)
            if h is DC:
                r = l
            elif l is DC:
                r = h
            else:
                r = ite_general(top, h, l)
        else:
            # the care set depends on a variable v does not: quantify it away
            r = go(v, b_or(ch, cl))
        memo[k] = r
        return r

    r = go(v, care)
    return v if r is DC else r


def leaves(v, care=True):
    """list of (condition, leaf) with condition compatible with care"""
    if care is False:
        return []
    if type(v) is not Ite:
        return [(care, v)]
    memo = {}

    def go(v):
        if type(v) is not Ite:
            return {vkey(v): (True, v)}
        r = memo.get(id(v))
        if r is None:
            h, l = go(v.hi), go(v.lo)
            r = {}
            for k, (c, x) in h.items():
                lc = l.get(k)
                r[k] = (mk(v.var, c, lc[0] if lc else False), x)
            for k, (c, x) in l.items():
                if k not in h:
                    r[k] = (mk(v.var, False, c), x)
            memo[id(v)] = r
        return r

    out = []
    for c, x in go(v).values():
        c = b_and(c, care)
        if c is not False:
            out.append((c, x))
    return out


def support(v):
    seen, out = set(), set()

    def go(v):
        if type(v) is not Ite or id(v) in seen:
            return
        seen.add(id(v))
        out.add(v.var)
        go(v.hi)
        go(v.lo)

    go(v)
    return out


def one_path(c):
    """some satisfying assignment of a condition, as text"""
    out = []
    while type(c) is Ite:
        if c.hi is not False:
            out.append(atom_name(c.var))
            c = c.hi
        else:
            out.append("not " + atom_name(c.var))
            c = c.lo
    return " and ".join(out) or "always"


# --------------------------------------------------------------------------------------------------
# evaluation of normal forms (only to find a witness that two normal forms differ)


def _h01(*xs):
    s = "|".join(("%.6e" % x if isinstance(x, float) else "%.6e,%.6e" % (x.real, x.imag) if isinstance(x, complex) else str(x)) for x in xs)
    return int(hashlib.sha256(s.encode()).hexdigest()[:12], 16) / float(16**12)


INTERPRETED = {"quad", "exp", "atan2", "atan", "tan", "max", "min", "mod", "floor", "S", "C", "int", "round", "ceil", "acos", "asin", "log"}


class Eval:
    def __init__(self, seed):
        self.seed = seed
        self.memo = {}
        self.over = {}

    def sym(self, name):
        if name in self.over:
            return self.over[name]
        v = 0.15 + 1.2 * _h01(self.seed, name)
        s = SIGN.get(name)
        if s == "-":
            v = -v
        elif s != "+" and _h01(self.seed, name, "s") < 0.5:
            v = -v
        return v

    def near(self, p):
        """value and the distance from zero that rounding may account for"""
        if isinstance(p, (int, Fraction)):
            return float(p), 1e-13
        scale = 0.0
        for m, c in p.t:
            x = abs(float(c))
            for a, e in m:
                x *= abs(self.atom(a)) ** float(e) if e > 0 else 1.0
            scale += x
        return self.poly(p).real, max(1e-13, min(1e-9, 1e-10 * scale))

    def poly(self, p):
        if isinstance(p, (int, Fraction)):
            return float(p)
        r = 0j
        for m, c in p.t:
            x = complex(float(c))
            for a, e in m:
                v = self.atom(a)
                try:
                    x *= v ** int(e) if e.denominator == 1 else complex(v) ** float(e)
                except ZeroDivisionError:
                    raise Undecided("degenerate sample")
            r += x
        return r

    def atom(self, a):
        key = (a, tuple(sorted(self.over.items())))
        if key in self.memo:
            return self.memo[key]
        v = self._atom(a)
        self.memo[key] = v
        return v

    @staticmethod
    def fkey(n, args):
        return "%s(%s)" % (n, ", ".join(repr(round(x.real, 7)) if isinstance(x, complex) else show(x) for x in args))

    def slot(self, a):
        """what a sample may choose freely: (name, sign, value) of a symbol or of an uninterpreted function at its arguments"""
        if isinstance(a, str):
            return a, SIGN.get(a), self.sym(a)
        args = [self.poly(x) if isinstance(x, (Poly, int, Fraction)) and not isinstance(x, bool) else x for x in a.args[1:]]
        return self.fkey(a.args[0], args), "+" if a.args[0] == "length" else None, self.atom(a).real

    def _atom(self, a):
        k = a.kind
        if k == "sym":
            return complex(self.sym(a.args[0]))
        if k == "pi":
            return complex(math.pi)
        if k == "j":
            return 1j
        if k == "num":
            return complex(float(a.args[0]))
        if k == "P":
            return self.poly(a.args[0])
        if k == "cos":
            return cmath.cos(self.poly(a.args[0]))
        if k == "sin":
            return cmath.sin(self.poly(a.args[0]))
        if k == "sgn":
            x = self.poly(a.args[0]).real
            return complex((x > 0) - (x < 0))
        if k == "fn":
            n = a.args[0]
            if n == "quad":
                _, body, var, lo, hi = a.args
                lo, hi = self.poly(lo).real, self.poly(hi).real
                N = 64
                tot = 0.0
                old = self.over
                for i in range(N + 1):
                    w = 1 if i in (0, N) else (4 if i % 2 else 2)
                    self.over = dict(old)
                    self.over[var] = lo + (hi - lo) * i / N
                    tot += w * self.poly(body).real
                self.over = old
                return complex(tot * (hi - lo) / N / 3)
            args = [self.poly(x) if isinstance(x, (Poly, int, Fraction)) and not isinstance(x, bool) else x for x in a.args[1:]]
            if n == "exp":
                return cmath.exp(args[0])
            if n == "atan2":
                return complex(math.atan2(args[0].real, args[1].real))
            if n == "atan":
                return complex(math.atan(args[0].real))
            if n == "tan":
                return cmath.tan(args[0])
            if n == "max":
                return complex(max(x.real for x in args))
            if n == "min":
                return complex(min(x.real for x in args))
            if n == "mod":
                return complex(args[0].real % args[1].real)
            if n == "floor":
                return complex(math.floor(args[0].real))
            if n == "ceil":
                return complex(math.ceil(args[0].real))
            if n == "int":
                return complex(math.trunc(args[0].real))
            if n == "round":
                return complex(round(args[0].real, int(args[1].real)))
            if n in ("acos", "asin", "log"):
                try:
                    return complex(getattr(math, n)(args[0].real))
                except ValueError:
                    raise Undecided("degenerate sample")
            if self.over:
                k = self.fkey(n, args)
                if k in self.over:
                    return complex(self.over[k])
            if n == "length":
                return complex(0.5 + _h01(n, *[x.real if isinstance(x, complex) else show(x) for x in args]))
            if n in ("S", "C"):
                return complex(_fresnel(n, args[0].real))
            return complex(2 * _h01(self.seed, n, *[round(x.real, 7) if isinstance(x, complex) else show(x) for x in args]) - 1)
        raise Undecided("cannot evaluate " + a.sk)


def _fresnel(n, z):
    N = 400
    f = (lambda t: math.sin(math.pi * t * t / 2)) if n == "S" else (lambda t: math.cos(math.pi * t * t / 2))
    h = z / N
    tot = f(0) + f(z)
    for i in range(1, N):
        tot += (4 if i % 2 else 2) * f(i * h)
    return tot * h / 3


def nums_equal(a, b):
    """decide equality of two numeric leaves: normal forms first; if they differ, look for a witness.

    returns (equal, witness-text)"""
    a, b = poly(a), poly(b)
    if a == b:
        return True, None
    d = psub(a, b)
    if not d.t:
        return True, None
    if d.const() is not None:
        if abs(d.const()) < Fraction(1, 10**12):
            return True, None
        return False, "%s differs from %s" % (show(a), show(b))
    ok = 0
    for seed in range(12):
        ev = Eval(seed)
        try:
            x, y = ev.poly(a), ev.poly(b)
        except (Undecided, OverflowError, ZeroDivisionError, ValueError):
            continue
        ok += 1
        if abs(x - y) > 1e-6 * max(1.0, abs(x), abs(y)):
            return False, "%s differs from %s (e.g. %.6g versus %.6g)" % (show(a), show(b), x.real, y.real)
    if ok < 3:
        raise Undecided("cannot compare %s with %s" % (show(a), show(b)))
    return True, None
