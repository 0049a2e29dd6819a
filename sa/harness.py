"""Obligations, comparison of abstract values with their specification, and reporting."""
import ast
import hashlib
import json
import os
import pickle
import re
import sys
import time
from fractions import Fraction

from . import terms as T
from .terms import Undecided, Ite, Poly, SStr, StrOf, Fn, Sym, Tup, Ref, b_and, b_not, b_or, show, same, simp, leaves, vkey, ATOMS
from .interp import Interp, Ext, ExcLeaf, is_text, is_num, PyExc

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SA_REPO", "/repo")  # the override is only for developing the analyser
ID_ATTRS = {"id", "elementId", "incomingRoad", "connectingRoad", "from", "to", "junction"}

PRELUDE = '''
import pyodrx as p
import xml.etree.ElementTree as ET
def E(tag, attrs=None, kids=()):
    return (tag, {} if attrs is None else attrs, list(kids))
'''


# things that carry everything they may carry, for analyses that must not depend on it
DECOR = """
def dLane(*a, **k):
    if not a and 'lane_type' not in k:
        k['lane_type'] = p.LaneType.border
    x = p.Lane(*a, **k)
    x.add_roadmark(p.RoadMark(p.RoadMarkType.solid_broken, 0.3, 1, 3, 6, rule=p.MarkRule.no_passing))
    return x
def dRoad(*a, **k):
    if len(a) < 5 and 'name' not in k:
        k['name'] = 'some road'
    if len(a) < 6 and 'rule' not in k:
        k['rule'] = 'LHT'
    x = p.Road(*a, **k)
    o = p.Object(1, 2, p.ObjectType.tree)
    o.repeat(10, 2)
    x.add_object([o, p.Object(8, 4)])
    x.add_object(p.Object(3, 4))
    x.add_signal([p.Signal(8, 2, 'se', 'stop'), p.Signal(1, 2, 'se', 'go')])
    x.add_neighbor(p.ElementType.road, 801, p.Direction.same)
    x.add_neighbor(p.ElementType.road, 802, p.Direction.opposite)
    return x
def dSignal(*a, **k):
    d = dict(name='sign', dynamic=p.Dynamic.yes, value=70, unit='km/h', zOffset=0, orientation=p.Orientation.negative, hOffset=1, height=2, width=3)
    d.update(k)
    return p.Signal(*a, **d)
def dObject(*a, **k):
    d = dict(subtype='sub', name='thing', dynamic=p.Dynamic.yes, zOffset=1, orientation=p.Orientation.positive, hdg=1, width=2, length=3, height=4)
    d.update(k)
    x = p.Object(*a, **d)
    x.repeat(10, 2)
    x.repeat(20, 1, sStart=4)
    return x
def dConnection(*a, **k):
    x = p.Connection(*a, **k)
    x.add_lanelink(2, -3)
    x.add_lanelink(-3, 2)
    return x
"""


def decorated(names, job):
    """the same scenarios with richer lanes, roads, signals, objects or connections"""

    def run(ctx, *a):
        ctx.decor = tuple(names.split())
        try:
            return job(ctx, *a)
        finally:
            ctx.decor = ()

    return run


# --------------------------------------------------------------------------------------------------
# sampling: does a condition have a concrete instance, and do two numbers differ there?


def particular(v, sub, memo=None):
    """a value for one choice of its unknown numbers and texts"""
    nums, texts = sub
    memo = {} if memo is None else memo
    if isinstance(v, Ite):
        if id(v) not in memo:
            memo[id(v)] = T.ite(T.mk(v.var, True, False), particular(v.hi, sub, memo), particular(v.lo, sub, memo))
        return memo[id(v)]
    if isinstance(v, Poly) and nums:
        return T.num(T.psubst(v, nums))
    if isinstance(v, Sym):
        return texts.get(v, v)
    if isinstance(v, StrOf):
        x = particular(v.v, sub, memo)
        return x if isinstance(x, str) else StrOf(x) if x is not v.v else v
    if isinstance(v, SStr):
        return T.sstr([particular(q, sub, memo) for q in v.parts])
    return v


def _paths(c, lim=400):
    """satisfying paths of a condition as [(var, polarity)]"""
    out = []

    def go(c, acc):
        if len(out) >= lim or c is False:
            return
        if c is True:
            out.append(acc)
            return
        go(c.hi, acc + [(c.var, True)])
        go(c.lo, acc + [(c.var, False)])

    go(c, [])
    return out


def _numeric(var):
    k = ATOMS[var]
    return k[0] in ("eq", "lt") and isinstance(k[1], Poly)


def _equalities(path):
    """whether the equalities of texts and other values on a path agree with each other"""
    part, const, differ = {}, {}, []

    def find(k):
        while part.get(k, k) != k:
            k = part[k]
        return k

    for v, pol in path:
        a = ATOMS[v]
        if a[0] not in ("eqs", "eqv") or len(a) != 3:
            continue
        ks = []
        for x in a[1:]:
            k = (a[0], vkey(x))
            if isinstance(x, (str, int, Fraction)):
                const[k] = x
            ks.append(k)
        if not pol:
            differ.append(ks)
            continue
        r, q = find(ks[0]), find(ks[1])
        if r != q:
            part[r] = q
            if r in const:
                if q in const and const[q] != const[r]:
                    return False
                const[q] = const[r]
    return all(find(a) != find(b) for a, b in differ)


def _solve(p):
    """p = 0 solved for a symbol it is linear in with constant coefficient: (name, Poly) or None"""
    for m, c in p.t:
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "sym":
            name = m[0][0].args[0]
            rest = T.psub(p, T.pscale(T.atom_poly(m[0][0]), c))
            if not _mentions(rest, name):
                return name, T.pscale(rest, Fraction(-1) / c)
    if len(p.t) == 2 and p.t[0][1] == -p.t[1][1]:
        # a^2 = b^2 for two positive unknowns
        (m, _), (n, _) = p.t
        if len(m) == len(n) == 1 and m[0][1] == n[0][1] == 2 and T.atom_sign(m[0][0]) == T.atom_sign(n[0][0]) == "+" and m[0][0].kind == "sym":
            return m[0][0].args[0], T.atom_poly(n[0][0])
    return None


def _mentions(p, name):
    for a in p.atoms():
        if _amentions(a, name):
            return True
    return False


def _amentions(a, name):
    if a.kind == "sym":
        return a.args[0] == name
    return any(isinstance(x, Poly) and _mentions(x, name) for x in a.args)


def instance(cond, nums=(), seeds=40):
    """a sample (text, [values of nums]) satisfying cond, None when none was found.

    When nums has two members the sample must also tell them apart."""
    cond = cond
    if cond is False:
        return None
    for path in _paths(cond):
        if not _equalities(path):
            continue
        table = {}
        preds = [(ATOMS[v][0], ATOMS[v][1], pol) for v, pol in path if _numeric(v)]
        left = []  # equalities that cannot be solved for a symbol: met exactly by moving samples
        for kind, p, pol in preds:
            if kind == "eq" and pol:
                q = T.psubst(p, table) if table else p
                if not q.t:
                    continue
                s = _solve(q)
                if s is None:
                    left.append(p)
                    continue
                table = {k: T.psubst(v, {s[0]: s[1]}) for k, v in table.items()}
                table[s[0]] = s[1]
        sub = (lambda x: T.psubst(x, table)) if table else (lambda x: x)
        try:
            ps = [(k, sub(p), pol) for k, p, pol in preds if not (k == "eq" and pol)] + [("same", sub(p), True) for p in left]
            ns = [sub(T.poly(n)) for n in nums]
        except (Undecided, ZeroDivisionError):
            continue
        def valid(ev, stop=True):
            """number of unsatisfied conditions at a sample (stop: 0 or 1)"""
            bad = []
            for name, q in table.items():
                s = T.SIGN.get(name)
                if s:
                    v, tol = ev.near(q)
                    if s == "+" and v <= 0 or s == "-" and v >= 0 or s == "nz" and abs(v) <= tol:
                        bad.append(q)
                        if stop:
                            return bad
            for k, p, pol in ps:
                v, tol = ev.near(p)
                t = v < -tol if k == "lt" else abs(v) <= tol if k == "eq" else v == 0
                if t != pol:
                    bad.append(p)
                    if stop:
                        return bad
            return bad

        txt = " and ".join(("" if pol else "not ") + T.atom_name(v) for v, pol in path) or "always"
        found = False
        for seed in range(seeds):
            ev = T.Eval(seed)
            try:
                if valid(ev):
                    continue
                found = True
                vals = [ev.poly(n) for n in ns]
            except (Undecided, OverflowError, ZeroDivisionError, ValueError):
                continue
            if len(vals) == 2 and abs(vals[0] - vals[1]) <= 1e-6 * max(1.0, abs(vals[0]), abs(vals[1])):
                continue
            return txt, vals
        if not found and ps:
            # the condition holds at no plain sample: move samples towards it
            key = (id(path[-1][0]) if False else tuple(path), tuple(ns))
            if key in _DEAD:
                continue

            def differ(ev):
                try:
                    a, b = [ev.poly(n) for n in ns]
                except (Undecided, OverflowError, ZeroDivisionError, ValueError):
                    return False
                return abs(a - b) > 1e-6 * max(1.0, abs(a), abs(b))

            for seed in range(6):
                ev = T.Eval(seed)
                try:
                    if not _repair(ev, valid, seed, differ if len(ns) == 2 else None):
                        continue
                    found = True
                    vals = [ev.poly(n) for n in ns]
                except (Undecided, OverflowError, ZeroDivisionError, ValueError):
                    continue
                if len(vals) == 2 and abs(vals[0] - vals[1]) <= 1e-6 * max(1.0, abs(vals[0]), abs(vals[1])):
                    continue
                return txt, vals
            if not found:
                UNREACHED.add(txt)
            _DEAD.add(key)
    return None


_DEAD = set()
UNREACHED = set()  # conditions for which no sample was found
_MOVES = (0.0, 1e-11, 1e-7, 1e-3, 0.05, 0.3, 1.0, 3.0, 10.0, 100.0, 1e4, 1e6, 1e9)


def _symbols(p, out=None):
    out = {} if out is None else out
    for a in p.atoms():
        if a.kind == "sym":
            out[a.args[0]] = 1
        elif a.kind == "fn" and a.args[0] not in T.INTERPRETED:
            out[a] = 1
        for x in a.args:
            if isinstance(x, Poly):
                _symbols(x, out)
    return out


def _repair(ev, valid, seed, differ=None):
    """change the symbols of a sample one at a time until the condition holds (away from its edge, where differ says so)"""
    hit, tried = None, 0
    bad = valid(ev, False)
    for rnd in range(10):
        if not bad:
            return True
        best = None
        for p in bad[:3]:
            for name in _symbols(p):
                try:
                    name, s, old = ev.slot(name)
                except (Undecided, OverflowError, ZeroDivisionError, ValueError):
                    continue
                kept = dict(ev.over)
                bases = [0.0, old]
                try:
                    ev.over[name] = 0.0
                    f0 = ev.poly(p).real
                    ev.over[name] = 1.0
                    f1 = ev.poly(p).real
                    if f1 != f0:
                        bases.append(f0 / (f0 - f1))
                except (Undecided, OverflowError, ZeroDivisionError, ValueError):
                    pass
                for b in bases:
                    for mv in _MOVES:
                        for sg in (1, -1):
                            v = b + sg * mv * (1 if mv < 0.2 or not b else max(1.0, abs(b)) if mv >= 1 else abs(b))
                            if s == "+" and v <= 0 or s == "-" and v >= 0 or s == "nz" and v == 0:
                                continue
                            ev.over = dict(kept)
                            ev.over[name] = v
                            try:
                                n = len(valid(ev, False))
                            except (Undecided, OverflowError, ZeroDivisionError, ValueError):
                                continue
                            if best is None or n < best[0]:
                                best = (n, name, v)
                            if n == 0:
                                if differ is None or tried >= 60 or differ(ev):
                                    return True
                                hit, tried = hit or dict(ev.over), tried + 1
                ev.over = kept
        if hit is not None:
            ev.over = hit
            return True
        if best is None or best[0] > len(bad) or (best[0] == len(bad) and rnd > 4):
            return False
        ev.over = dict(ev.over)
        ev.over[best[1]] = best[2]
        bad = valid(ev, False)
    return not bad


def _resgn(p, facts):
    """p with the signs known from facts put in"""
    out = T.poly(0)
    for m, c in p.t:
        r = T.poly(c)
        for a, e in m:
            r = T.pmul(r, T.ppow(_resgn_atom(a, facts), e))
        out = T.padd(out, r)
    return out


def _resgn_atom(a, facts):
    if a.kind == "sgn":
        f, q = _canon(a.args[0])
        s = facts.get(q)
        if s is not None:
            return T.poly(-s if f else s)
    if a.kind in ("sym", "pi", "j", "num"):
        return T.atom_poly(a)
    args = [_resgn(x, facts) if isinstance(x, Poly) else x for x in a.args]
    if a.kind == "cos":
        return T.pcos(args[0])
    if a.kind == "sin":
        return T.psin(args[0])
    if a.kind == "sgn":
        return T.psgn(args[0])
    if a.kind == "P":
        return args[0]
    if a.kind == "fn" and a.args[0] in ("S", "C"):
        return T.pfn(a.args[0], *args[1:], odd=True)
    return T.atom_poly(T.at(a.kind, *args))


def _canon(p):
    k = p.t[0][1] if p.t[0][0] != () or len(p.t) == 1 else p.t[1][1]
    return k < 0, T.pscale(p, 1 / k)


def refine(cond, ps):
    """the polynomials ps rewritten with the facts of each branch path of cond: list of tuples, None when there are too many paths"""
    paths = _paths(cond)
    if len(paths) >= 400:
        return None
    out = []
    for path in paths:
        preds = [(ATOMS[v][0], ATOMS[v][1], pol) for v, pol in path if _numeric(v)]
        table = {}
        try:
            for kind, p, pol in preds:
                if kind == "eq" and pol:
                    q = T.psubst(p, table) if table else p
                    if not q.t:
                        continue
                    s = _solve(q)
                    if s is None:
                        continue
                    table = {k: T.psubst(v, {s[0]: s[1]}) for k, v in table.items()}
                    table[s[0]] = s[1]
            sub = (lambda x: T.psubst(x, table)) if table else (lambda x: x)
            facts, dead = {}, False
            for name, v in table.items():
                s, g = T.SIGN.get(name), T.sign_of(v)
                dead |= s == "+" and g in ("-", "0") or s == "-" and g in ("+", "0") or s == "nz" and g == "0"
            lts = []
            for kind, p, pol in preds:
                q = sub(p)
                c = q.const()
                if c is not None:
                    t = c == 0 if kind == "eq" else c < 0
                    dead |= t != pol
                elif kind == "lt":
                    f, q = _canon(q)
                    g = T.sign_of(q)
                    if pol:
                        facts[q] = 1 if f else -1
                        dead |= g == ("-" if f else "+")
                    else:
                        lts.append((f, q))
            for f, q in lts:
                facts.setdefault(q, -1 if f else 1)  # not negative; where it is zero the sign does not matter or an equality fact applies
            if dead:
                continue
            out.append(tuple(_resgn(sub(p), facts) for p in ps))
        except ZeroDivisionError:
            continue
    return out


def text_number(x):
    """the number a text denotes, or None"""
    if isinstance(x, str):
        try:
            f = Fraction(x.strip())
            return T.poly(f)
        except (ValueError, ZeroDivisionError):
            try:
                return T.poly(Fraction(float(x)))
            except (ValueError, OverflowError):
                return None
    if isinstance(x, SStr) and len(x.parts) == 1:
        x = x.parts[0]
    if isinstance(x, StrOf) and is_num(x.v) and not isinstance(x.v, bool):
        return T.poly(x.v)
    return None


def has_fn(x):
    if isinstance(x, Fn):
        return True
    if isinstance(x, SStr):
        return any(has_fn(q) for q in x.parts)
    return False


FORCE_NARROW = bool(os.environ.get("SA_FORCE_NARROW"))  # for developing: every context for one choice of numbers


class Ctx:
    def __init__(self, pid, tier="quick", seed=1):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.obl = self.dis = 0
        self.viol = []  # (key, text)
        self.unconf = []
        self.samples = []
        self.funcs = {}
        self.calls = set()
        self.joins = self.steps = self.runs = 0
        self.rules = {}
        self.current = ""
        self.extra = {}
        self.interps = []
        self.ignore = ()
        self.decor = ()
        self.subst = None
        self.und = []  # contexts that were decided for one choice of numbers only
        self.narrows = pid not in ("C11", "C12", "C13", "C24", "C29", "C30")  # these compare two contexts with each other

    @property
    def deep(self):
        return self.tier == "thorough"

    # ------------------------------------------------------------------ interpreter
    def interp(self, **kw):
        I = Interp(REPO, **kw)
        I.load_package()
        I.loaded = I.steps
        self.interps.append(I)
        return I

    def run(self, I, code, binds=None, name="scenario", prelude=True):
        self.runs += 1
        if self.decor:
            name += " (with everything on %s)" % ", ".join(self.decor)
            code = DECOR + re.sub(r"\bp\.(%s)\(" % "|".join(self.decor), r"d\1(", code)
        self.current = name
        code = (PRELUDE if prelude else "") + code
        self.subst = getattr(I, "subst", None)
        if self.subst and binds:
            binds = {k: particular(v, self.subst) for k, v in binds.items()}
        first = not I.steps or I.steps == I.loaded
        if first and FORCE_NARROW:
            r = self._narrow(I, code, binds, name)
            if r is not None:
                return r
        try:
            return I.run(code, binds, name)
        except T.Diverges as e:
            w = instance(b_and(e.pc, I.th.ax))
            if w:
                self.fail("terminates", "%s:%s %s" % tuple(e.loc) if isinstance(e.loc, tuple) and len(e.loc) == 3 else str(e.loc), "this loop never ends when %s" % w[0])
            raise
        except Undecided as e:
            r = self._narrow(I, code, binds, name) if first else None
            if r is None:
                raise
            self.und.append("%s: %s" % (name, e))
            return r

    def _narrow(self, I, code, binds, name):
        """the scenario for one choice of its unknown numbers: can refute an obligation the general analysis cannot decide"""
        if not self.narrows or not binds:
            return None
        nums, texts = {}, {}
        vals = [5, 2, 3, 7, 4, 6, 8, 9, 11, 12, 13, 10]
        names = ["007", "012", "0030", "00", "a b", "-03", "0x1F", "1e3", "3.0", "Bb", "q7", "+5"]
        syms, texty = set(), set()

        def find(v):
            if isinstance(v, Ite):
                for _, x in T.leaves(v):
                    find(x)
            elif isinstance(v, Poly):
                if len(v.t) == 1 and v.t[0][1] == 1 and len(v.t[0][0]) == 1 and v.t[0][0][0][1] == 1 and v.t[0][0][0][0].kind == "sym":
                    n = v.t[0][0][0][0].args[0]
                    if n not in nums:
                        k = len(nums)
                        nums[n] = T.poly((vals[k] if k < len(vals) else 20 + k) * (-1 if T.SIGN.get(n) == "-" else 1))
            elif isinstance(v, Sym):
                (syms if v.kind == "any" else texty).add(v)
            elif isinstance(v, SStr):
                for q in v.parts:
                    find(q.v if isinstance(q, StrOf) else q)

        for v in binds.values():
            find(v)
        for k, v in enumerate(sorted(syms | texty, key=lambda v: v.name)):
            texts[v] = names[k] if k < len(names) else "n%d" % k
        for sub in ((nums, {}), (nums, texts))[FORCE_NARROW:]:
            if not any(sub) or sub[1] is texts and not texts:
                continue
            J = self.interp(package=I.package)
            self.interps.remove(J)
            J.th = I.th
            try:
                r = J.run(code, {k: particular(v, sub) for k, v in binds.items()}, name)
                break
            except Undecided:
                continue
        else:
            return None
        self.subst = J.subst = sub
        I.__dict__ = J.__dict__  # both names now mean the same analysis
        return r

    def done(self, I):
        if I in self.interps:
            self.interps.remove(I)
        for k, v in I.analysed.items():
            self.funcs[k] = v
        self.calls |= set(I.calls)
        self.joins += I.joins
        self.steps += I.steps

    def parallel(self, jobs, workers=None):
        """run independent jobs (callables taking this context) in forked copies of the analyser and merge what they report"""
        n = min(workers or min(8, os.cpu_count() or 1), len(jobs))
        if n <= 1:
            for j in jobs:
                j(self)
            return
        sys.stdout.flush()
        # the jobs still to be done, two bytes each, shared by the workers
        queue, put = os.pipe()
        os.write(put, b"".join(k.to_bytes(2, "big") for k in range(len(jobs))))
        os.close(put)
        kids = []
        for w in range(n):
            rd, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(rd)
                res = {}
                try:
                    self.obl = self.dis = self.joins = self.steps = self.runs = 0
                    self.und, self.viol, self.unconf, self.samples, self.funcs, self.calls, self.rules, self.extra, self.interps = [], [], [], [], {}, set(), {}, {}, []
                    undecided = None
                    for k in iter(lambda: os.read(queue, 2), b""):
                        j, start = jobs[int.from_bytes(k, "big")], time.time()
                        try:
                            j(self)
                        except Undecided as e:
                            undecided = undecided or "%s: %s" % (self.current, e)
                        if os.environ.get("SA_TIMES"):
                            print("%6.1f s  job %d %s" % (time.time() - start, int.from_bytes(k, "big"), getattr(j, "__name__", "")), file=sys.stderr, flush=True)
                    for I in list(self.interps):
                        self.done(I)
                    res = dict(self.__dict__, interps=None, undecided=undecided)
                    res = {k: res[k] for k in ("obl", "dis", "viol", "unconf", "samples", "funcs", "calls", "joins", "steps", "runs", "rules", "extra", "undecided", "und")}
                except BaseException as e:
                    import traceback

                    res = {"undecided": "internal error: " + traceback.format_exc()}
                with os.fdopen(wr, "wb") as fh:
                    pickle.dump(res, fh)
                os._exit(0)
            os.close(wr)
            kids.append((pid, rd))
        os.close(queue)
        bad = None
        for pid, rd in kids:
            with os.fdopen(rd, "rb") as fh:
                data = fh.read()
            os.waitpid(pid, 0)
            if not data:
                bad = "an analysis process ended early"
                continue
            res = pickle.loads(data)
            bad = bad or res.get("undecided")
            for k in ("obl", "dis", "joins", "steps", "runs"):
                setattr(self, k, getattr(self, k) + res.get(k, 0))
            self.viol += res.get("viol", [])
            self.unconf += res.get("unconf", [])
            self.und += res.get("und", [])
            for t in res.get("samples", []):
                if t not in self.samples:
                    self.sample(t)
            self.funcs.update(res.get("funcs", {}))
            self.calls |= res.get("calls", set())
            for k, v in res.get("rules", {}).items():
                self.rules[k] = self.rules.get(k, 0) + v
            for k, v in res.get("extra", {}).items():
                self.extra[k] = self.extra.get(k, 0) + v if isinstance(v, int) else v
        if bad:
            raise Undecided(bad)

    # ------------------------------------------------------------------ symbolic inputs
    def opt(self, I, name, val):
        """an optional argument: the value, or None"""
        return T.ite(I.th.pred("omitted", name), None, val)

    def pick(self, I, name, vals):
        """an input that is any one of vals"""
        out = vals[-1]
        for k in range(len(vals) - 2, -1, -1):
            # exclusive selection by a chain of predicates
            out = T.ite(I.th.pred("is", name, k), vals[k], out)
        return out

    def enum(self, I, clsname, name):
        """any member of an enumeration of the package"""
        ref = self.cls(I, clsname)
        info = I.get(ref).meta
        if not info.members:
            raise Undecided("%s has no members" % clsname)
        return self.pick(I, name, list(info.members))

    def cls(self, I, name):
        ref = I.get(I.mods[I.package]).d.get(name)
        if ref is None:
            raise Undecided("the package does not export %s" % name)
        return ref

    # ------------------------------------------------------------------ obligations
    def ok(self, rule, n=1):
        self.obl += n
        self.dis += n
        self.rules[rule] = self.rules.get(rule, 0) + n

    def fail(self, rule, construct, text):
        self.obl += 1
        self.rules[rule] = self.rules.get(rule, 0) + 1
        self.viol.append(("%s:%s" % (rule, construct), "[%s] %s: %s" % (self.current, construct, text)))

    def sample(self, text):
        if len(self.samples) < 12:
            self.samples.append(text)

    def holds(self, I, rule, construct, cond, care, text):
        """obligation: care implies cond"""
        bad = b_and(b_and(care, I.th.ax), b_not(cond))
        if bad is False:
            self.ok(rule)
            return True
        w = instance(bad)
        if w is None:
            self.unconf.append("%s %s: %s" % (rule, construct, text))
            self.ok(rule)
            return True
        self.fail(rule, construct, "%s when %s" % (text, w[0]))
        return False

    def no_raise(self, r, rule, construct, allow=None):
        """obligation: the scenario raises nothing (outside allow)"""
        for c, n, s, leaf in r.excs():
            if allow and allow(n, leaf):
                continue
            w = instance(c)
            if w is None:
                continue
            r.I.st = s
            a = r.I.get(leaf).d.get("args")
            where = [str(l) for l, _, v in r.I.raised_log if v is leaf]
            self.fail(rule, construct, "raises %s%s at %s when %s" % (n, show(a) if a is not None else "", where[-1] if where else "?", w[0]))
            return False
        if r.end is None:
            raise Undecided("scenario %s never ends normally" % self.current)
        self.ok(rule)
        return True

    def raises(self, I, r, rule, construct, name, care=True, what="this"):
        """obligation: under care the scenario ends with the named exception (or a subclass of it)"""
        good = False
        for c, n, s, leaf in r.excs():
            I.st = s
            if r.exc_isa(leaf, name):
                good = b_or(good, c)
        bad = b_and(b_and(care, I.th.ax), b_not(good))
        if bad is False:
            self.ok(rule)
            return True
        w = instance(bad)
        if w is None:
            self.unconf.append("%s %s" % (rule, construct))
            self.ok(rule)
            return True
        others = sorted({n for c, n, s, leaf in r.excs() if b_and(c, bad) is not False})
        self.fail(rule, construct, "%s must raise %s but %s when %s" % (what, name, "raises " + ", ".join(others) if others else "is accepted", w[0]))
        return False

    # ------------------------------------------------------------------ comparing leaves
    def leaf_diff(self, a, e, cond, strict=False):
        """None when equal, else (witness text) that a differs from e under cond"""
        if self.subst:
            e = particular(e, self.subst)
        if same(a, e):
            return None
        na, ne = (T.poly(a) if is_num(a) and not isinstance(a, bool) else None), (T.poly(e) if is_num(e) and not isinstance(e, bool) else None)
        if na is None and ne is None and not strict:
            na, ne = text_number(a), text_number(e)
        elif na is None and ne is None and strict:
            # text identical up to the normal form of a converted number
            xa, xe = text_number(a), text_number(e)
            if xa is not None and xe is not None and not (isinstance(a, str) and isinstance(e, str)):
                na, ne = xa, xe
        if na is not None and ne is not None:
            if na == ne:
                return None
            d = T.psub(na, ne)
            if not d.t:
                return None
            c = d.const()
            if c is not None and abs(c) < Fraction(1, 10**9):
                return None
            rs = refine(cond, (d,))
            if rs is not None and all(T.vanishes(r) for r, in rs):
                return None
            w = instance(cond, (na, ne))
            if w is None:
                self.unconf.append("%s / %s" % (show(a), show(e)))
                return None
            return "is %s, expected %s (e.g. %.6g instead of %.6g when %s)" % (show(a), show(e), w[1][0].real, w[1][1].real, w[0])
        if isinstance(a, SStr) and isinstance(e, SStr) and len(a.parts) == len(e.parts):
            for x, y in zip(a.parts, e.parts):
                d = self.leaf_diff(x, y, cond, strict)
                if d:
                    return d
            return None
        if isinstance(a, StrOf) and isinstance(e, StrOf):
            return self.leaf_diff(a.v, e.v, cond, strict)
        if isinstance(a, Tup) and isinstance(e, Tup) and len(a.items) == len(e.items):
            for x, y in zip(a.items, e.items):
                d = self.val_diff(x, y, cond, strict)
                if d:
                    return d
            return None
        if has_fn(a) and (is_text(e) or isinstance(e, Fn)):
            raise Undecided("cannot compare %s with %s" % (show(a), show(e)))
        w = instance(cond)
        if w is None:
            return None
        return "is %s, expected %s when %s" % (show(a), show(e), w[0])

    def val_diff(self, a, e, cond, strict=False):
        """compare two gated values under cond; None or witness text"""
        a, e = simp(a, cond), simp(e, cond)
        if same(a, e):
            return None
        if type(a) is not Ite and type(e) is not Ite:
            return self.leaf_diff(a, e, cond, strict)
        pair = T.lift(lambda x, y: True if same(x, y) else Tup((x, y)), a, e)
        for c, t in leaves(pair, cond):
            if t is True:
                continue
            d = self.leaf_diff(t.items[0], t.items[1], c, strict)
            if d:
                return d
        return None

    def eq(self, I, rule, construct, a, e, care, what, strict=False):
        care = b_and(care, I.th.ax)
        d = self.val_diff(a, e, care, strict)
        if d is None:
            self.ok(rule)
            return True
        self.fail(rule, construct, "%s %s" % (what, d))
        return False

    # ------------------------------------------------------------------ comparing XML
    def entries(self, I, ref, cond):
        """key -> (guard, value) of a dict"""
        out = {}
        for c, one in leaves(simp(ref, cond), cond):
            for k, g, v in I.get(one).items:
                if isinstance(k, Ref) or type(k) is Ite:
                    raise Undecided("attribute name is not a constant")
                g = simp(b_and(g, c), cond)
                if b_and(g, cond) is False:
                    continue
                if k in out:
                    g0, v0 = out[k]
                    out[k] = (b_or(g0, g), T.ite(g0, v0, v))
                else:
                    out[k] = (g, v)
        return out

    def locs(self, I, ref, cond):
        out = {}
        for c, one in leaves(simp(ref, cond), cond):
            out.update(I.get(one).locs or {})
        return out

    def members(self, I, ref, cond):
        """guarded members of a list"""
        out = []
        for c, one in leaves(simp(ref, cond), cond):
            for g, v in I.get(one).items:
                g = b_and(g, c)
                if b_and(g, cond) is not False:
                    out.append((simp(g, cond), v))
        return out

    def xml(self, I, rule, construct, actual, spec, care, path=""):
        """obligation: the abstract element `actual` is the specified one"""
        care = b_and(care, I.th.ax)
        n0 = len(self.viol)
        self.I_ = I
        self._xml(I, rule, construct, actual, spec, care, path)
        return len(self.viol) == n0

    def xml_any(self, I, rule, construct, actual, specs, care):
        """obligation: the element is one of the specified ones (where the specification leaves an order open)"""
        keep = (self.obl, self.dis, dict(self.rules), list(self.viol))
        first = None
        for sp in specs:
            if self.xml(I, rule, construct, actual, sp, care):
                return True
            now = (self.obl, self.dis, dict(self.rules), list(self.viol))
            first = first or now
            self.obl, self.dis, self.rules, self.viol = keep[0], keep[1], dict(keep[2]), list(keep[3])
        self.obl, self.dis, self.rules, self.viol = first
        return False

    def leaks(self, I, rule, construct, actual, care, path=""):
        """obligation: every attribute value of the element tree is text, and never the text of None"""
        care = b_and(care, I.th.ax)
        for c, v in leaves(simp(actual, care), care):
            if not (isinstance(v, Ref) and I.get(v).kind == "elem"):
                w = instance(c)
                if w:
                    self.fail(rule, construct + path, "no XML element but %s when %s" % (show(v), w[0]))
                continue
            h = I.get(v)
            here = path + "/" + show(h.meta)
            locs = self.locs(I, h.d["attrib"], c)
            for k, (g, val) in self.entries(I, h.d["attrib"], c).items():
                for cc, leaf in leaves(val, b_and(c, g)):
                    bad = None
                    if not is_text(leaf):
                        bad = "is not text but %s" % show(leaf)
                    elif leaf == "None" or isinstance(leaf, str) and "None" in leaf:
                        bad = "is the text of a missing value"
                    elif isinstance(leaf, SStr) and any(isinstance(q, StrOf) and q.v is None or isinstance(q, str) and "None" in q for q in leaf.parts):
                        bad = "contains the text of a missing value"
                    if bad:
                        w = instance(cc)
                        if w:
                            self.fail(rule, "%s@%s" % (construct + here, k), "attribute %s%s when %s" % (bad, " (set at %s)" % locs[k] if k in locs else "", w[0]))
                            continue
                    self.ok(rule)
            for g, ch in h.items:
                if b_and(g, c) is not False:
                    self.leaks(I, rule, construct, ch, b_and(g, c), here)

    def _xml(self, I, rule, cons, actual, spec, cond, path):
        actual, spec = simp(actual, cond), simp(spec, cond)
        if type(actual) is Ite or type(spec) is Ite:
            pair = T.lift(lambda x, y: Tup((x, y)), actual, spec)
            for c, t in leaves(pair, cond):
                if not I.feasible(c):
                    continue
                self._xml(I, rule, cons, t.items[0], t.items[1], c, path)
            return
        if not (isinstance(actual, Ref) and I.get(actual).kind == "elem"):
            w = instance(cond)
            if w:
                self.fail(rule, cons + path, "no XML element but %s when %s" % (show(actual), w[0]))
            return
        if isinstance(spec, Ref) and I.get(spec).kind == "elem":
            tag, attrs, kids = I.get(spec).meta, I.get(spec).d["attrib"], spec
        elif isinstance(spec, Tup):
            tag, attrs, kids = spec.items
        else:
            raise Undecided("bad specification tree %s" % show(spec))
        h = I.get(actual)
        path = path + "/" + str(tag)
        d = self.val_diff(h.meta, tag, cond, True)
        if d:
            self.fail(rule, cons + path, "element name %s" % d)
            return
        self.ok(rule)
        A, S = self.entries(I, h.d["attrib"], cond), self.entries(I, attrs, cond)
        locs = self.locs(I, h.d["attrib"], cond)
        for k in list(S) + [k for k in A if k not in S]:
            if k[0] in "~?" or k in self.ignore:
                continue
            if k not in S and "?*" in S:
                continue
            if "?" + k in S:
                # any text
                if k in A:
                    c = b_and(b_and(cond, A[k][0]), T.lift(lambda x: not is_text(x), A[k][1]))
                    if c is not False and instance(c) is not None:
                        self.fail(rule, "%s@%s" % (cons + path, k), "attribute value is not text")
                    else:
                        self.ok(rule)
                continue
            ga, va = A.get(k, (False, None))
            gs, vs = S.get(k, (False, None))
            if "~" + k in S and ga is not False:
                # may be written, then with this value
                gt, vt = S["~" + k]
                free = b_and(b_and(ga, gt), b_not(gs))
                if b_and(cond, free) is not False:
                    vs = T.ite(gs, vs, vt) if gs is not False else vt
                    gs = b_or(gs, free)
            where = " (set at %s)" % locs[k] if k in locs else ""
            bad = b_and(cond, T.ite(ga, b_not(gs), gs))
            if bad is not False:
                w = instance(bad)
                if w is not None:
                    miss = b_and(bad, gs) is not False and instance(b_and(bad, gs)) is not None
                    self.fail(rule, "%s@%s" % (cons + path, k), "attribute %s%s when %s" % ("missing" if miss else "not expected", where, w[0]))
                    continue
            both = b_and(cond, b_and(ga, gs))
            if both is False:
                self.ok(rule)
                continue
            dd = self.val_diff(va, vs, both, k in ID_ATTRS)
            if dd is None:
                nt = T.lift(lambda x: not (is_text(x)), simp(va, both))
                c = b_and(both, nt)
                if c is not False:
                    w = instance(c)
                    if w is not None:
                        self.fail(rule, "%s@%s" % (cons + path, k), "attribute value is not text%s when %s" % (where, w[0]))
                        continue
                self.ok(rule)
            else:
                self.fail(rule, "%s@%s" % (cons + path, k), "attribute %s%s" % (dd, where))
        ka = [(simp(g, cond), v) for g, v in h.items if b_and(g, cond) is not False]
        ks = self.members(I, kids, cond)
        self._align(I, rule, cons, ka, 0, ks, 0, cond, path, [0])

    def _align(self, I, rule, cons, A, i, S, j, cond, path, n):
        n[0] += 1
        if n[0] > 20000:
            raise Undecided("too many child alignments")
        while True:
            if cond is False or not I.feasible(cond):
                return
            if len(self.viol) > 60:
                return
            ga = simp(A[i][0], cond) if i < len(A) else None
            gs = simp(S[j][0], cond) if j < len(S) else None
            if ga is False or ga is not None and b_and(ga, cond) is False:
                i += 1
                continue
            if gs is False or gs is not None and b_and(gs, cond) is False:
                j += 1
                continue
            if ga is None and gs is None:
                return
            if ga is not None and gs is not None and same(ga, gs):
                self._xml(I, rule, cons, A[i][1], S[j][1], b_and(cond, ga), path)
                i += 1
                j += 1
                continue
            # split on an undetermined guard
            g = ga if type(ga) is Ite else gs if type(gs) is Ite else None
            if g is not None:
                self._align(I, rule, cons, A, i, S, j, b_and(cond, g), path, n)
                cond = b_and(cond, b_not(g))
                continue
            w = instance(cond)
            if w is None:
                return
            if ga is None:
                self.fail(rule, cons + path, "child %s missing when %s" % (self.kid(S[j][1], cond), w[0]))
            else:
                v = simp(A[i][1], cond)
                t = show(I.get(v).meta) if isinstance(v, Ref) else show(v)
                self.fail(rule, cons + path, "unexpected child %s when %s" % (t, w[0]))
            return

    def kid(self, v, cond):
        v = simp(v, cond)
        if isinstance(v, Ref):
            return show(self.I_.get(v).meta)
        return show(v.items[0]) if isinstance(v, Tup) else show(v)

    # ------------------------------------------------------------------ sources
    def literals(self):
        """largest small integer literal used in comparisons, subscripts, slices or ranges of the library"""
        I = self.interp()
        best = 0
        for n, (path, src, tree) in I.sources.items():
            for x in ast.walk(tree):
                args = []
                if isinstance(x, ast.Compare):
                    args = [x.left] + x.comparators
                elif isinstance(x, ast.Subscript):
                    args = [x.slice]
                    if isinstance(x.slice, ast.Slice):
                        args = [y for y in (x.slice.lower, x.slice.upper, x.slice.step) if y is not None]
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("range", "islice", "min", "max"):
                    args = x.args
                for a in args:
                    for c in ast.walk(a):
                        if isinstance(c, ast.Constant) and type(c.value) is int and 0 < c.value <= 8:
                            best = max(best, c.value)
        return best

    def sizes(self, cap=None):
        """list lengths to analyse: 0 .. cut-off derived from the literals of the source"""
        n = max(3, self.literals() + 1)
        if not self.deep:
            n = min(n, 5)
        if cap:
            n = min(n, cap)
        return list(range(0, n + 1))


# --------------------------------------------------------------------------------------------------


def load_known():
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    for line in open(p, encoding="utf-8") if os.path.exists(p) else ():
        line = line.strip()
        if line.startswith("known:"):
            # known: property=<id> key=<rule:construct> | <what fails>
            head, _, what = line[6:].partition("|")
            kv = dict(x.split("=", 1) for x in head.split())
            out.setdefault(kv["property"], {})[kv["key"]] = what.strip()
    return out


def finish(ctx, technique):
    for I in list(ctx.interps):
        ctx.done(I)
    known = load_known().get(ctx.pid, {})
    seen, news = set(), []
    for key, text in ctx.viol:
        if key in known:
            seen.add(key)
        else:
            news.append((key, text))
    for key in sorted(seen):
        print("KNOWN-FINDING: property=%s %s" % (ctx.pid, known[key]))
    if ctx.obl == 0:
        raise Undecided("no obligation was generated")
    mods = {}
    for (f, q), line in ctx.funcs.items():
        mods.setdefault(f, []).append(q)
    ev = {
        "property": ctx.pid,
        "tier": ctx.tier,
        "seed": ctx.seed,
        "level": "other",
        "coverage": {
            "explanation": "Static analysis of the current source of /repo (parsed, never executed): %d obligations generated, %d discharged. "
            "%d analysis contexts (entry points with symbolic arguments), %d library functions analysed, %d resolved call sites, %d control-flow joins, %d abstract steps. Rule: %s"
            % (ctx.obl, ctx.dis, ctx.runs, len(ctx.funcs), len(ctx.calls), ctx.joins, ctx.steps, technique),
            "obligations": ctx.obl,
            "discharged": ctx.dis,
            "contexts": ctx.runs,
            "functions_analysed": {f: sorted(q) for f, q in sorted(mods.items())},
            "call_sites": len(ctx.calls),
            "rules": ctx.rules,
            "known_findings": sorted(seen),
            "unconfirmed": ctx.unconf[:20],
            "conditions_without_instance": len(UNREACHED),
            "unreached": sorted(UNREACHED)[:10],
            "samples": ctx.samples,
            **ctx.extra,
        },
        "assumptions": [
            "the models of the Python built-ins, ElementTree, numpy and scipy functions in sa/models.py",
            "real arithmetic (no rounding)",
        ],
        "wall_s": round(time.time() - ctx.t0, 3),
        "violations": len(news),
    }
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, ctx.pid + ".json"), "w", encoding="utf-8") as fh:
        json.dump(ev, fh, indent=1)
        fh.write("\n")
    if news:
        rp = os.path.join(d, ctx.pid + ".violation.txt")
        with open(rp, "w", encoding="utf-8") as fh:
            fh.write("Violations of %s found by static analysis of /repo (re-run: python3 %s/check.py %s)\n\n" % (ctx.pid, HERE, ctx.pid))
            for key, text in news[:50]:
                fh.write("key=%s\n  %s\n" % (key, text))
        for key, text in news[:8]:
            print("  " + text[:1000])
        print("VIOLATION property=%s replay=%s" % (ctx.pid, rp))
        return 1
    if ctx.und:
        print("UNDECIDED property=%s scenario=%s" % (ctx.pid, ctx.und[0]))
        return 2
    print("%s: held on everything analysed (%d obligations, %d functions, %.1f s)" % (ctx.pid, ctx.obl, len(ctx.funcs), time.time() - ctx.t0))
    return 0
