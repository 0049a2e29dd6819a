"""C21: constructed errors flow to a raise, no handler drops them, every name resolves and is bound before it is read.

Dataflow over the syntax tree of every module of the package; nothing is executed or imported from /repo."""
import ast
import builtins
import os
import subprocess
import sys

from ..harness import REPO

BUILTINS = set(dir(builtins))
EXC_BASES = {n for n in BUILTINS if isinstance(getattr(builtins, n), type) and issubclass(getattr(builtins, n), BaseException)}
FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef)
COMPS = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)
MAYBE = object()
PROBE = """
import importlib, json, sys
q = json.load(sys.stdin)
out = {"attrs": {}, "members": []}
mem = set()
for mod, names in q.items():
    try:
        m = importlib.import_module(mod)
    except ImportError:
        out["attrs"][mod] = None
        continue
    out["attrs"][mod] = sorted(set(names) & set(dir(m)))
    for v in vars(m).values():
        if isinstance(v, type):
            mem |= set(dir(v))
mem |= {"tag", "attrib", "text", "tail"}
out["members"] = sorted(mem)
print(json.dumps(out))
"""


def bound_names(t):
    """names a binding target stores"""
    for x in ast.walk(t):
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            yield x.id


def scope_walk(node):
    """the nodes of one scope, without the bodies of functions, classes, lambdas and comprehensions nested in it"""
    todo = list(node.body) if isinstance(node.body, list) else [node.body]
    while todo:
        x = todo.pop()
        yield x
        if isinstance(x, FUNCS):
            todo += x.decorator_list + x.args.defaults + [d for d in x.args.kw_defaults if d]
        elif isinstance(x, ast.ClassDef):
            todo += x.decorator_list + x.bases + [k.value for k in x.keywords]
        elif isinstance(x, ast.Lambda):
            todo += x.args.defaults + [d for d in x.args.kw_defaults if d]
        elif isinstance(x, COMPS):
            todo.append(x.generators[0].iter)
        else:
            todo += list(ast.iter_child_nodes(x))


class Info:
    """a function or class of the library"""

    def __init__(self, mod, qual, node, cls=None):
        self.mod, self.qual, self.node, self.cls = mod, qual, node, cls


class Library:
    def __init__(self, root=REPO, package="pyodrx"):
        self.root, self.package = root, package
        self.trees, self.paths = {}, {}
        d = os.path.join(root, package)
        for f in sorted(os.listdir(d)):
            if f.endswith(".py"):
                p = os.path.join(d, f)
                with open(p, encoding="utf-8") as fh:
                    self.trees[f[:-3]] = ast.parse(fh.read(), p)
                self.paths[f[:-3]] = os.path.join(package, f)
        self.env = {m: {} for m in self.trees}
        self.classes, self.funcs = {}, []
        self.methods = {}
        self.external = {}
        for m in self.trees:
            self.collect(m)
        for _ in range(len(self.trees) + 2):
            self.stars()
        self.hier()

    # ---------------------------------------------------------------- module environments
    def dotted(self, mod, n):
        """absolute module named by an ImportFrom"""
        if n.level:
            if n.level > 1:
                return None
            return self.package + ("." + n.module if n.module else "")
        return n.module

    def key(self, dotted):
        if dotted == self.package:
            return "__init__"
        if dotted and dotted.startswith(self.package + "."):
            return dotted[len(self.package) + 1:]
        return None

    def collect(self, m):
        env = self.env[m]
        tree = self.trees[m]

        def visit(body, cls, outer):
            for x in body:
                for y in ast.walk(x):
                    if isinstance(y, FUNCS + (ast.ClassDef,)) and not hasattr(y, "_info"):
                        pass
            for x in body:
                self.defs(x, m, cls, outer)

        visit(tree.body, None, "")
        for x in scope_walk(tree):
            if isinstance(x, FUNCS):
                env[x.name] = ("func", x._info)
            elif isinstance(x, ast.ClassDef):
                env[x.name] = ("class", x._info)
            elif isinstance(x, ast.Import):
                for al in x.names:
                    k = self.key(al.name)
                    if k is not None:
                        env[al.asname or self.package] = ("mod", k if al.asname else "__init__")
                    else:
                        env[al.asname or al.name.split(".")[0]] = ("ext", al.name if al.asname else al.name.split(".")[0])
                        self.external.setdefault(al.name, set())
            elif isinstance(x, ast.ImportFrom):
                d = self.dotted(m, x)
                k = self.key(d)
                for al in x.names:
                    if al.name == "*":
                        env.setdefault("*", ("stars", []))[1].append(k if k is not None else ("ext", d))
                    elif k is not None:
                        env[al.asname or al.name] = ("from", k, al.name, x.lineno)
                    else:
                        env[al.asname or al.name] = ("extname", d, al.name)
                        self.external.setdefault(d, set()).add(al.name)
            elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                env.setdefault(x.id, ("var",))
            elif isinstance(x, ast.ExceptHandler) and x.name:
                env.setdefault(x.name, ("var",))
        for f in ast.walk(tree):
            if isinstance(f, ast.Global):
                for n in f.names:
                    env.setdefault(n, ("var",))

    def defs(self, x, m, cls, outer):
        if isinstance(x, FUNCS):
            q = outer + x.name
            x._info = Info(m, q, x, cls)
            self.funcs.append(x._info)
            for y in x.body:
                self.defs(y, m, None, q + ".")
        elif isinstance(x, ast.ClassDef):
            q = outer + x.name
            x._info = Info(m, q, x)
            self.classes[(m, q)] = x._info
            for y in x.body:
                self.defs(y, m, x._info, q + ".")
        else:
            for y in ast.iter_child_nodes(x):
                if isinstance(y, (ast.stmt, ast.ExceptHandler)):
                    self.defs(y, m, cls, outer)

    def stars(self):
        for m, env in self.env.items():
            for k in env.get("*", ("", []))[1]:
                if isinstance(k, tuple) or k not in self.env:
                    continue
                names = self.exported(k)
                for n in names:
                    env.setdefault(n, ("from", k, n, 0))

    def exported(self, k):
        for x in self.trees[k].body:
            if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "__all__" for t in x.targets):
                if isinstance(x.value, (ast.List, ast.Tuple)):
                    return [e.value for e in x.value.elts if isinstance(e, ast.Constant)]
        return [n for n in self.env[k] if not n.startswith("_") and n != "*"]

    def resolve(self, m, name, seen=()):
        """what a module-level name stands for, None when nothing binds it"""
        if (m, name) in seen or m not in self.env:
            return None
        v = self.env[m].get(name)
        if v is None:
            if m == "__init__" and name in self.trees:
                return ("mod", name)
            if any(isinstance(k, tuple) for k in self.env[m].get("*", ("", []))[1]):
                return ("unknown",)
            if name in BUILTINS:
                return ("builtin", name)
            if name in ("__name__", "__file__", "__doc__", "__package__", "__path__", "__spec__", "__loader__", "__builtins__"):
                return ("var",)
            return None
        if v[0] == "from":
            r = self.resolve(v[1], v[2], seen + ((m, name),))
            if r is None and v[1] == "__init__" and v[2] in self.trees:
                return ("mod", v[2])
            if r is not None and r[0] == "builtin":
                return None
            return r
        return v

    def expr(self, m, x, local=()):
        """what an expression names at module level: (kind, ...) or None"""
        if isinstance(x, ast.Name):
            return None if x.id in local else self.resolve(m, x.id)
        if isinstance(x, ast.Attribute):
            b = self.expr(m, x.value, local)
            if b is None:
                return None
            if b[0] == "mod":
                return self.resolve(b[1], x.attr)
            if b[0] == "ext":
                return ("ext", b[1] + "." + x.attr)
            if b[0] == "extname":
                return ("ext", b[1] + "." + b[2] + "." + x.attr)
            if b[0] == "class":
                f = self.member(b[1], x.attr)
                return ("func", f) if f is not None else None
        return None

    # ---------------------------------------------------------------- classes
    def hier(self):
        for c in self.classes.values():
            c.bases, c.open = [], False
            c.builtin = set()
            for b in c.node.bases:
                r = self.expr(c.mod, b)
                if r is not None and r[0] == "class":
                    c.bases.append(r[1])
                elif r is not None and r[0] == "builtin":
                    c.builtin |= set(dir(getattr(builtins, r[1])))
                    c.bases.append(r[1])
                elif r is not None and r[0] == "extname" and r[1] == "enum":
                    import enum

                    c.builtin |= set(dir(getattr(enum, r[2], enum.Enum))) | {"name", "value"}
                    c.bases.append("enum")
                elif r is not None and r[0] == "ext" and r[1].startswith("enum."):
                    import enum

                    c.builtin |= set(dir(getattr(enum, r[1][5:], enum.Enum))) | {"name", "value"}
                    c.bases.append("enum")
                else:
                    c.open = True
            if any(k.arg == "metaclass" for k in c.node.keywords):
                c.open = True
            c.own, c.slots = {}, set()
            for x in scope_walk(c.node):
                if isinstance(x, FUNCS):
                    c.own[x.name] = x._info
                    if x.name in ("__getattr__", "__getattribute__"):
                        c.open = True
                elif isinstance(x, ast.ClassDef):
                    c.own[x.name] = x._info
                elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    c.own.setdefault(x.id, MAYBE)
            for f in [x for x in ast.walk(c.node) if isinstance(x, FUNCS)]:
                a = f.args.posonlyargs + f.args.args
                me = a[0].arg if a else None
                for x in ast.walk(f):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == me:
                        c.slots.add(x.attr)
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("setattr", "vars"):
                        c.open = True
                    if isinstance(x, ast.Attribute) and x.attr == "__dict__":
                        c.open = True
        self.outside, self.anyname = set(), False
        for m, t in self.trees.items():
            for x in ast.walk(t):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                    self.outside.add(x.attr)
                self.dynamic(x)
        for c in self.classes.values():
            for n, f in c.own.items():
                if isinstance(f, Info):
                    self.methods.setdefault(n, []).append((c, f))
        self.subs = {id(c): [] for c in self.classes.values()}
        for c in self.classes.values():
            for b in self.mro(c)[1:]:
                self.subs[id(b)].append(c)

    def dynamic(self, x):
        """attributes that come into being by other means than an assignment: setattr, __dict__, named tuples, namespaces"""
        if isinstance(x, ast.Attribute) and x.attr == "__dict__":
            self.anyname = True
        if not isinstance(x, ast.Call):
            return
        f = x.func
        name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ""
        if name in ("setattr", "__setattr__"):
            names = [a for a in x.args[-2:-1]]
        elif name in ("namedtuple", "NamedTuple", "make_dataclass"):
            names = list(x.args[1:2]) + [k.value for k in x.keywords if k.arg in ("field_names", "fields")]
            if name == "namedtuple":
                self.outside |= {"_replace", "_asdict", "_fields", "_make", "count", "index"}
        elif name == "SimpleNamespace":
            self.outside |= {k.arg for k in x.keywords if k.arg}
            names = [k.value for k in x.keywords if k.arg is None] + list(x.args)
        elif name == "vars":
            names = list(x.args)
        elif name == "type" and len(x.args) == 3:
            names = [x.args[2]]
        else:
            return
        for a in names:
            parts = [y for y in ast.walk(a) if isinstance(y, ast.Constant) and isinstance(y.value, str)]
            if isinstance(a, ast.Constant) or isinstance(a, (ast.List, ast.Tuple)) and parts:
                for y in parts:
                    self.outside |= set(y.value.replace(",", " ").split())
            else:
                self.anyname = True

    def mro(self, c):
        out, todo = [], [c]
        while todo:
            x = todo.pop(0)
            if isinstance(x, Info) and x not in out:
                out.append(x)
                todo += x.bases
        return out

    def member(self, c, name):
        for k in self.mro(c):
            if name in k.own:
                return k.own[name] if isinstance(k.own[name], Info) else None
        return None

    def has_attr(self, c, name, instance=True):
        if (name in self.outside or self.anyname) and instance:
            return True
        for k in self.mro(c) + (self.subs[id(c)] if instance else []):
            if name in k.own or (instance and name in k.slots) or k.open or name in k.builtin:
                return True
        return name in dir(object) or (not instance and (name in dir(type) or any(name in k.slots and False for k in self.mro(c)))) or name in ("__dict__", "__name__", "__module__", "__doc__")

    def is_exc(self, r):
        if r is None:
            return False
        if r[0] == "builtin":
            return r[1] in EXC_BASES
        return r[0] == "class" and any(isinstance(b, str) and b in EXC_BASES for k in self.mro(r[1]) for b in k.bases)

    def exc_names(self, r):
        """qualified names of an exception class and everything it is derived from"""
        if r[0] == "builtin":
            return {k.__name__ for k in getattr(builtins, r[1]).__mro__ if issubclass(k, BaseException)}
        out = set()
        for k in self.mro(r[1]):
            out.add(k.mod + "." + k.qual)
            for b in k.bases:
                if isinstance(b, str) and b in EXC_BASES:
                    out |= self.exc_names(("builtin", b))
        return out

    def params(self, f):
        return f.node.args

    def site(self, m, q, line):
        return "%s:%d in %s" % (self.paths[m], line, q or "module level")


def locals_of(f):
    """names local to a function"""
    a = f.args
    out = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    if a.vararg:
        out.add(a.vararg.arg)
    if a.kwarg:
        out.add(a.kwarg.arg)
    away = set()
    if isinstance(f, ast.Lambda):
        return out, away
    for x in scope_walk(f):
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            out.add(x.id)
        elif isinstance(x, FUNCS + (ast.ClassDef,)):
            out.add(x.name)
        elif isinstance(x, (ast.Import, ast.ImportFrom)):
            for al in x.names:
                out.add(al.asname or al.name.split(".")[0])
        elif isinstance(x, ast.ExceptHandler) and x.name:
            out.add(x.name)
        elif isinstance(x, (ast.Global, ast.Nonlocal)):
            away |= set(x.names)
        elif isinstance(x, COMPS):
            for y in ast.walk(x):
                if isinstance(y, ast.NamedExpr):
                    out.add(y.target.id)
    return out - away, away


# --------------------------------------------------------------------------------------------------
def all_raise(body):
    """no normal way out of these statements: every path ends in a raise"""
    for s in body:
        if isinstance(s, ast.Raise):
            return True
        if isinstance(s, (ast.Return, ast.Break, ast.Continue)):
            return False
        if isinstance(s, ast.If) and s.orelse and all_raise(s.body) and all_raise(s.orelse):
            return True
        if isinstance(s, ast.With) and all_raise(s.body):
            return True
        if isinstance(s, ast.Try) and (all_raise(s.finalbody) or (all_raise(s.body) and all(all_raise(h.body) for h in s.handlers))):
            return True
        if any(isinstance(x, (ast.Return, ast.Break, ast.Continue)) for x in ast.walk(s)):
            return False
    return False


class Raising:
    """which functions only ever raise, which return errors, and which errors each may raise"""

    def __init__(self, lib):
        self.lib = lib
        self.never = set()
        self.returns_exc = {}
        self.raised = {}
        for f in lib.funcs:
            if all_raise(f.node.body):
                self.never.add(id(f))
        for _ in range(3):
            for f in lib.funcs:
                for x in scope_walk(f.node):
                    if isinstance(x, ast.Return) and x.value is not None and self.error(f, x.value) is not None:
                        self.returns_exc[id(f)] = self.error(f, x.value)
        for f in lib.funcs:
            self.raised[id(f)] = self.direct(f)
        change = True
        while change:
            change = False
            for f in lib.funcs:
                got = set(self.raised[id(f)])
                for c in calls_in(f.node):
                    for g in self.targets(f, c):
                        got |= self.raised[id(g)]
                if got != self.raised[id(f)]:
                    self.raised[id(f)] = got
                    change = True

    def targets(self, f, call):
        """library functions a call may reach"""
        lib, m = self.lib, f.mod
        fn = call.func
        r = lib.expr(m, fn, locals_of(f.node)[0] if f.node and isinstance(f.node, FUNCS) else ())
        if r is not None and r[0] == "func":
            return [r[1]]
        if r is not None and r[0] == "class":
            g = lib.member(r[1], "__init__")
            return [g] if g else []
        if isinstance(fn, ast.Attribute):
            if isinstance(fn.value, ast.Name) and f.cls is not None and fn.value.id == first_arg(f.node):
                ks = lib.mro(f.cls) + lib.subs[id(f.cls)]
                got = [k.own[fn.attr] for k in ks if isinstance(k.own.get(fn.attr), Info)]
                if got:
                    return got
            return [g for c, g in lib.methods.get(fn.attr, ()) if isinstance(g.node, FUNCS)]
        if isinstance(fn, ast.Name):
            return [g for g in lib.funcs if g.mod == m and g.qual == f.qual + "." + fn.id]
        return []

    def error(self, f, x):
        """the error class an expression constructs, or None"""
        lib = self.lib
        if isinstance(x, ast.Call):
            r = lib.expr(f.mod, x.func, locals_of(f.node)[0] if isinstance(f.node, FUNCS) else ())
            if lib.is_exc(r):
                return r
            for g in self.targets(f, x):
                if id(g) in self.returns_exc:
                    return self.returns_exc[id(g)]
        if isinstance(x, ast.IfExp):
            return self.error(f, x.body) or self.error(f, x.orelse)
        return None

    def direct(self, f):
        out = set()
        for x in scope_walk(f.node):
            if isinstance(x, ast.Raise) and x.exc is not None:
                out.add(self.kind(f, x.exc))
        return out

    def kind(self, f, x):
        r = self.error(f, x)
        if r is None:
            r = self.lib.expr(f.mod, x, locals_of(f.node)[0] if isinstance(f.node, FUNCS) else ())
            if not self.lib.is_exc(r):
                r = None
        if r is None and isinstance(x, ast.Name):
            for y in scope_walk(f.node):
                if isinstance(y, ast.Assign) and any(isinstance(t, ast.Name) and t.id == x.id for t in y.targets):
                    r = self.error(f, y.value) or r
        if r is None:
            return frozenset({"BaseException", "Exception", "?"})
        return frozenset(self.lib.exc_names(r))


def first_arg(node):
    a = node.args.posonlyargs + node.args.args
    return a[0].arg if a else None


def calls_in(node):
    for x in ast.walk(node):
        if isinstance(x, ast.Call):
            yield x


def leaving(body, loop=False):
    """return statements, and break and continue of an outer loop, that leave these statements"""
    for s in body:
        if isinstance(s, FUNCS + (ast.ClassDef,)):
            continue
        if isinstance(s, ast.Return) or (isinstance(s, (ast.Break, ast.Continue)) and not loop):
            yield s
        for name in ("body", "orelse", "finalbody"):
            yield from leaving(getattr(s, name, None) or [], loop or (isinstance(s, (ast.For, ast.While)) and name == "body"))
        for h in getattr(s, "handlers", ()):
            yield from leaving(h.body, loop)


def brief(x):
    t = ast.unparse(x)
    return (t if len(t) < 90 else t[:87] + "...").replace(" ", "_").replace("\n", "")


# --------------------------------------------------------------------------------------------------
class Errors:
    """constructed errors must be raised or escape; handlers must not drop them"""

    def __init__(self, ctx, lib, rz):
        self.ctx, self.lib, self.rz = ctx, lib, rz
        self.count = {}

    def scope(self, f):
        ctx, lib, rz = self.ctx, self.lib, self.rz
        parent = {}
        for x in ast.walk(f.node):
            for y in ast.iter_child_nodes(x):
                parent[y] = x
        for x in scope_walk(f.node):
            cons = "%s.%s" % (f.mod, f.qual)
            if isinstance(x, ast.Expr) and isinstance(x.value, (ast.Name, ast.Attribute)):
                r = lib.expr(f.mod, x.value, locals_of(f.node)[0] if isinstance(f.node, FUNCS) else ())
                if lib.is_exc(r):
                    ctx.fail("C21-raised", cons + ":" + brief(x.value), "the error %s named at %s is not raised" % (ast.unparse(x.value), lib.site(f.mod, f.qual, x.lineno)))
            if isinstance(x, ast.Raise):
                self.check_raise(f, x, cons)
            if not isinstance(x, ast.Call) or rz.error(f, x) is None:
                continue
            bad = self.dropped(f, x, parent)
            if bad:
                r = rz.error(f, x)
                k = (cons, r[1] if r[0] == "builtin" else r[1].qual)
                self.count[k] = self.count.get(k, 0) + 1
                ctx.fail("C21-raised", "%s:%s%s" % (k + ("" if self.count[k] == 1 else "#%d" % self.count[k],)), "the error constructed at %s is %s: %s" % (lib.site(f.mod, f.qual, x.lineno), bad, ast.unparse(x)[:160]))
            else:
                ctx.ok("C21-raised")

    def check_raise(self, f, x, cons):
        lib = self.lib
        e = x.exc
        if e is None:
            return
        bad = None
        if isinstance(e, (ast.Constant, ast.Tuple, ast.List, ast.Dict, ast.JoinedStr, ast.BinOp)):
            bad = "is not an error"
        else:
            t = e.func if isinstance(e, ast.Call) else e
            r = lib.expr(f.mod, t, locals_of(f.node)[0] if isinstance(f.node, FUNCS) else ())
            if r is not None and not lib.is_exc(r):
                if r[0] == "class" or (r[0] == "builtin" and not (isinstance(e, ast.Call) and False)):
                    bad = "is not an error class"
                elif r[0] == "func" and id(r[1]) not in self.rz.returns_exc and id(r[1]) not in self.rz.never:
                    if isinstance(e, ast.Call) and not any(isinstance(y, ast.Return) and y.value is not None for y in scope_walk(r[1].node)):
                        bad = "returns nothing that could be raised"
            if r is not None and r[0] == "class" and any(k.open for k in lib.mro(r[1])):
                bad = None
        if bad:
            self.ctx.fail("C21-raised", cons + ":" + brief(e), "what is raised at %s %s: %s" % (lib.site(f.mod, f.qual, x.lineno), bad, ast.unparse(e)[:120]))
        else:
            self.ctx.ok("C21-raisable")

    def dropped(self, f, x, parent):
        """why the error in expression x never reaches a raise, or None"""
        lib, rz = self.lib, self.rz
        p = parent.get(x)
        cur = x
        while isinstance(p, (ast.IfExp, ast.BoolOp, ast.NamedExpr)):
            if isinstance(p, ast.IfExp) and cur is p.test:
                return "only tested"
            cur, p = p, parent.get(p)
        if isinstance(p, ast.Raise):
            return None
        if isinstance(p, ast.Expr):
            return "never raised"
        if isinstance(p, ast.Lambda):
            return None
        if isinstance(p, ast.Return):
            if isinstance(f.node, FUNCS) and not self.called(f):
                return "returned to a caller that does not expect an error"
            return None
        if isinstance(p, (ast.Assign, ast.AnnAssign)):
            ts = p.targets if isinstance(p, ast.Assign) else [p.target]
            names = [t.id for t in ts if isinstance(t, ast.Name)]
            if len(names) != len(ts):
                return None
            loc, away = locals_of(f.node) if isinstance(f.node, FUNCS) else (set(), set())
            if isinstance(f.node, FUNCS) and not any(n in loc for n in names):
                return None
            if not isinstance(f.node, FUNCS):
                return None
            used = False
            for y in ast.walk(f.node):
                if isinstance(y, ast.Name) and y.id in names and isinstance(y.ctx, ast.Load):
                    if not self.idle(y, parent):
                        used = True
            return None if used else "kept in a variable and never raised"
        if isinstance(p, (ast.Call, ast.keyword)):
            c = p if isinstance(p, ast.Call) else parent.get(p)
            r = lib.expr(f.mod, c.func, locals_of(f.node)[0] if isinstance(f.node, FUNCS) else ())
            if isinstance(c, ast.Call) and r is not None and r[0] in ("builtin", "ext", "extname") and not lib.is_exc(r):
                name = r[1] if r[0] != "extname" else r[1] + "." + r[2]
                if name in ("print", "str", "repr", "bool", "id", "type", "len", "isinstance") or name.startswith(("warnings.", "logging.", "sys.stderr", "sys.stdout", "traceback.")):
                    return "handed to %s and not raised" % name
            return None
        return None

    def called(self, f):
        """whether the library itself calls f: those calls are then checked like constructions"""
        for g in self.lib.funcs:
            for c in calls_in(g.node):
                if any(t is f for t in self.rz.targets(g, c)):
                    return True
        return False

    def idle(self, y, parent):
        """a use of an error that does not help to raise it"""
        p = parent.get(y)
        while isinstance(p, (ast.Attribute, ast.FormattedValue, ast.JoinedStr)):
            p = parent.get(p)
        if isinstance(p, ast.Expr):
            return True
        if isinstance(p, ast.Compare) or (isinstance(p, (ast.If, ast.While)) and p.test is y):
            return True
        if isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and p.func.id in ("print", "str", "repr", "type", "isinstance", "bool"):
            return True
        return False

    def handlers(self, f):
        ctx, lib, rz = self.ctx, self.lib, self.rz
        for x in scope_walk(f.node):
            if isinstance(x, ast.With):
                for it in x.items:
                    c = it.context_expr
                    if isinstance(c, ast.Call) and ast.unparse(c.func).split(".")[-1] == "suppress":
                        caught = [self.classes(f, a) for a in c.args]
                        self.drop(f, x, x.body, set().union(*caught) if caught else set(), "suppressed by the with statement")
            if not isinstance(x, ast.Try):
                continue
            for y in leaving(x.finalbody):
                self.drop(f, y, x.body + [z for h in x.handlers for z in h.body], {"BaseException"}, "dropped by the statement that leaves the finally block")
            done = set()
            for h in x.handlers:
                caught = self.classes(f, h.type) if h.type is not None else {"BaseException"}
                if self.passes_on(h):
                    done |= caught
                    ctx.ok("C21-handler")
                    continue
                self.drop(f, h, x.body, caught, "dropped by the handler", done)
                done |= caught

    def classes(self, f, x):
        out = set()
        for t in x.elts if isinstance(x, ast.Tuple) else [x]:
            r = self.lib.expr(f.mod, t, locals_of(f.node)[0] if isinstance(f.node, FUNCS) else ())
            if r is None or not self.lib.is_exc(r):
                continue
            out.add(r[1] if r[0] == "builtin" else r[1].mod + "." + r[1].qual)
        return out

    def passes_on(self, h):
        if all_raise(h.body):
            return True
        if h.name is None:
            return False
        # kept for a later raise
        for s in h.body:
            for y in ast.walk(s):
                if isinstance(y, (ast.Assign, ast.Return)) and y.value is not None and any(isinstance(z, ast.Name) and z.id == h.name for z in ast.walk(y.value)):
                    if isinstance(y.value, ast.Name):
                        return True
                if isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr in ("append", "add") and any(isinstance(z, ast.Name) and z.id == h.name for z in y.args):
                    return True
        return False

    def drop(self, f, at, body, caught, how, already=()):
        lib, rz = self.lib, self.rz
        found = None
        for s in body:
            for y in ast.walk(s):
                kinds, where = [], None
                if isinstance(y, ast.Raise) and y.exc is not None:
                    kinds, where = [rz.kind(f, y.exc)], "raised at line %d" % y.lineno
                elif isinstance(y, ast.Call):
                    for g in rz.targets(f, y):
                        kinds += list(rz.raised[id(g)])
                        where = "raised below the call at line %d" % y.lineno
                for k in kinds:
                    if k & caught and not (k & set(already)):
                        if isinstance(y, ast.Raise) and self.control(f, body, y, at):
                            continue
                        found = (sorted(k - {"BaseException", "Exception", "object"})[:1] or ["an error"], where)
        cons = "%s.%s" % (f.mod, f.qual)
        if found:
            self.ctx.fail("C21-swallowed", cons + ":" + "+".join(sorted(caught)), "%s (%s) is %s at %s" % (found[0][0], found[1], how, lib.site(f.mod, f.qual, at.lineno)))
        else:
            self.ctx.ok("C21-swallowed")

    def control(self, f, body, y, at):
        """a raise used as a jump to the handler of the same try is only accepted for the look-up errors"""
        k = self.rz.kind(f, y.exc)
        return bool(k & {"KeyError", "IndexError", "StopIteration", "AttributeError"}) and "?" not in k


# --------------------------------------------------------------------------------------------------
class Flow:
    """definite assignment in one scope; remembers under which conditions a name is bound"""

    def __init__(self, ctx, lib, rz, f, names):
        self.ctx, self.lib, self.rz, self.f, self.names = ctx, lib, rz, f, names
        self.bad = []
        self.reads = 0
        self.loops = []
        self.soft = set()

    # a state is (bound names, {(condition text, truth): names}) or None when the point is not reached
    def join(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        imp = {}
        for k in set(a[1]) | set(b[1]):
            x = (a[1].get(k) or frozenset()) | a[0]
            y = (b[1].get(k) or frozenset()) | b[0]
            if x & y:
                imp[k] = x & y
        return (a[0] & b[0], imp)

    def bind(self, st, names):
        if st is None:
            return None
        names = {n for n in names if n in self.names}
        imp = {k: v for k, v in st[1].items() if not (mentions(k[0]) & set(names))}
        return (st[0] | names, imp)

    def unbind(self, st, names):
        if st is None:
            return None
        names = set(names)
        return (st[0] - names, {k: v - names for k, v in st[1].items()})

    def use(self, st, n):
        if st is None or n.id not in self.names:
            return
        self.reads += 1
        if n.id not in st[0] and n.id not in self.soft:
            self.bad.append((n.id, n.lineno))

    def expr(self, x, st):
        """evaluate: check the reads, return the state after"""
        if x is None or st is None:
            return st
        if isinstance(x, ast.Name):
            if isinstance(x.ctx, ast.Load):
                self.use(st, x)
            return st
        if isinstance(x, ast.NamedExpr):
            return self.bind(self.expr(x.value, st), [x.target.id])
        if isinstance(x, (ast.BoolOp, ast.IfExp)) or (isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.Not)):
            if isinstance(x, ast.IfExp):
                t, e = self.cond(x.test, st)
                return self.join(self.expr(x.body, t), self.expr(x.orelse, e))
            t, e = self.cond(x, st)
            return self.join(t, e)
        if isinstance(x, ast.Lambda):
            for d in x.args.defaults + [k for k in x.args.kw_defaults if k]:
                st = self.expr(d, st)
            return st
        if isinstance(x, COMPS):
            st = self.expr(x.generators[0].iter, st)
            own = {n for g in x.generators for n in bound_names(g.target)}
            inner = Flow(self.ctx, self.lib, self.rz, self.f, self.names - own)
            inner.soft = self.soft
            s = st
            for i, g in enumerate(x.generators):
                if i:
                    s = inner.expr(g.iter, s)
                for c in g.ifs:
                    s = inner.cond(c, s)[0]
            if isinstance(x, ast.DictComp):
                s = inner.expr(x.key, s)
                inner.expr(x.value, s)
            else:
                inner.expr(x.elt, s)
            self.bad += inner.bad
            self.reads += inner.reads
            return st
        for y in ast.iter_child_nodes(x):
            if isinstance(y, (ast.expr, ast.keyword, ast.Slice)):
                st = self.expr(y.value if isinstance(y, ast.keyword) else y, st)
        if isinstance(x, ast.Call):
            ts = self.rz.targets(self.f, x)
            if ts and all(id(g) in self.rz.never for g in ts):
                return None
            r = self.lib.expr(self.f.mod, x.func, self.names)
            if r in (("ext", "sys.exit"), ("ext", "os._exit"), ("builtin", "exit")):
                return None
        return st

    def cond(self, x, st):
        """states after the test was true and after it was false"""
        if st is None:
            return None, None
        if isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.Not):
            t, e = self.cond(x.operand, st)
            return e, t
        if isinstance(x, ast.BoolOp):
            if isinstance(x.op, ast.And):
                t, out = st, None
                for v in x.values:
                    t, e = self.cond(v, t)
                    out = self.join(out, e)
                return self.know(x, True, t), self.know(x, False, out)
            e, out = st, None
            for v in x.values:
                t, e = self.cond(v, e)
                out = self.join(out, t)
            return self.know(x, True, out), self.know(x, False, e)
        if isinstance(x, ast.Constant):
            return (st, None) if x.value else (None, st)
        st = self.expr(x, st)
        return self.know(x, True, st), self.know(x, False, st)

    def know(self, x, truth, st):
        if st is None:
            return None
        add = st[1].get((canon(x), truth), frozenset())
        for k, v in neg(x):
            add = add | st[1].get((k, truth == v), frozenset())
        return (st[0] | add, st[1])

    def block(self, body, st):
        for s in body:
            st = self.stmt(s, st)
        return st

    def stmt(self, s, st):
        if st is None:
            return None
        if isinstance(s, FUNCS):
            for d in s.decorator_list + s.args.defaults + [k for k in s.args.kw_defaults if k]:
                st = self.expr(d, st)
            return self.bind(st, [s.name])
        if isinstance(s, ast.ClassDef):
            for d in s.decorator_list + s.bases + [k.value for k in s.keywords]:
                st = self.expr(d, st)
            return self.bind(st, [s.name])
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return self.bind(st, [al.asname or al.name.split(".")[0] for al in s.names])
        if isinstance(s, ast.Assign):
            st = self.expr(s.value, st)
            for t in s.targets:
                st = self.target(t, st)
            return st
        if isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name):
                self.use(st, s.target)
            else:
                st = self.expr(s.target, st)
            st = self.expr(s.value, st)
            return self.target(s.target, st) if isinstance(s.target, ast.Name) else st
        if isinstance(s, ast.AnnAssign):
            if s.value is None:
                return st
            return self.target(s.target, self.expr(s.value, st))
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self.use(st, t)
                    st = self.unbind(st, [t.id])
                else:
                    st = self.expr(t, st)
            return st
        if isinstance(s, ast.Return):
            self.expr(s.value, st)
            return None
        if isinstance(s, ast.Raise):
            st = self.expr(s.exc, st)
            self.expr(s.cause, st)
            return None
        if isinstance(s, ast.Break):
            if self.loops:
                self.loops[-1][0] = self.join(self.loops[-1][0], st)
            return None
        if isinstance(s, ast.Continue):
            if self.loops:
                self.loops[-1][1] = self.join(self.loops[-1][1], st)
            return None
        if isinstance(s, ast.Assert):
            t, e = self.cond(s.test, st)
            self.expr(s.msg, e)
            return t
        if isinstance(s, ast.If):
            t, e = self.cond(s.test, st)
            a, b = self.block(s.body, t), self.block(s.orelse, e)
            out = self.join(a, b)
            if out is not None and a is not None and b is not None:
                imp = dict(out[1])
                k = canon(s.test)
                stored = {n for z in s.body + s.orelse for y in ast.walk(z) for n in ([y.id] if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store) else [])}
                if not (mentions(k) & stored):
                    imp[(k, True)] = a[0] | imp.get((k, True), frozenset())
                    imp[(k, False)] = b[0] | imp.get((k, False), frozenset())
                out = (out[0], imp)
            return out
        if isinstance(s, (ast.For, ast.AsyncFor)):
            st = self.expr(s.iter, st)
            if st is None:
                return None
            self.loops.append([None, None])
            body = self.block(s.body, self.target(s.target, st))
            brk, cont = self.loops.pop()
            once = self.join(body, cont)
            # names every iteration binds are taken as bound after the loop: an empty loop is not decided here
            sure = once[0] if once is not None else frozenset()
            if brk is not None and once is not None:
                sure = sure & brk[0]
            elif once is None and brk is not None:
                sure = brk[0]
            elif once is None:
                sure = st[0]
            end = (st[0] | sure, {k: v for k, v in st[1].items() if once is None or k in once[1]})
            end = self.block(s.orelse, end)
            return self.join(end, brk) if brk is not None else end
        if isinstance(s, ast.While):
            t, e = self.cond(s.test, st)
            self.loops.append([None, None])
            body = self.block(s.body, t)
            brk, cont = self.loops.pop()
            again = self.join(body, cont)
            _, e2 = Flow.cond(self.quiet(), s.test, again) if again is not None else (None, None)
            end = self.block(s.orelse, self.join(e, e2) if e is not None else e2)
            return self.join(end, brk) if brk is not None else end
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for it in s.items:
                st = self.expr(it.context_expr, st)
                if it.optional_vars is not None:
                    st = self.target(it.optional_vars, st)
            return self.block(s.body, st)
        if isinstance(s, ast.Try):
            before = st
            after = self.block(s.orelse, self.block(s.body, st))
            out = after
            for h in s.handlers:
                hs = self.expr(h.type, before)
                if h.name:
                    hs = self.bind(hs, [h.name])
                hs = self.block(h.body, hs)
                if h.name:
                    hs = self.unbind(hs, [h.name])
                out = self.join(out, hs)
            if s.finalbody:
                q = self.quiet() if out is not None else self
                if out is not None:
                    chk = self.block(s.finalbody, self.join(out, before))
                    if chk is None:
                        return None
                    return self.quiet().block(s.finalbody, out)
                self.block(s.finalbody, before)
                return None
            return out
        if isinstance(s, ast.Expr):
            return self.expr(s.value, st)
        if isinstance(s, (ast.Pass, ast.Global, ast.Nonlocal)):
            return st
        for y in ast.iter_child_nodes(s):
            if isinstance(y, ast.expr):
                st = self.expr(y, st)
        return st

    def quiet(self):
        q = Flow(self.ctx, self.lib, self.rz, self.f, self.names)
        q.loops = [[None, None]]
        return q

    def target(self, t, st):
        if isinstance(t, ast.Name):
            return self.bind(st, [t.id])
        if isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                st = self.target(e, st)
            return st
        if isinstance(t, ast.Starred):
            return self.target(t.value, st)
        return self.expr(t, st)


def canon(x):
    if isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.Not):
        return "not " + canon(x.operand)
    return ast.unparse(x)


_MENT = {}


def mentions(text):
    if text not in _MENT:
        try:
            _MENT[text] = {y.id for y in ast.walk(ast.parse(text, mode="eval")) if isinstance(y, ast.Name)}
        except SyntaxError:
            _MENT[text] = set()
    return _MENT[text]


SWAP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.Lt: ast.GtE, ast.GtE: ast.Lt, ast.Gt: ast.LtE, ast.LtE: ast.Gt, ast.In: ast.NotIn, ast.NotIn: ast.In}


def neg(x):
    """other spellings of a test: (text, same truth?)"""
    if isinstance(x, ast.Compare) and len(x.ops) == 1 and type(x.ops[0]) in SWAP:
        y = ast.Compare(left=x.left, ops=[SWAP[type(x.ops[0])]()], comparators=x.comparators)
        yield canon(y), False
    if isinstance(x, (ast.Name, ast.Attribute)):
        yield "not " + canon(x), False


# --------------------------------------------------------------------------------------------------
class Names:
    """every name, attribute and argument name resolves"""

    def __init__(self, ctx, lib, rz):
        self.ctx, self.lib, self.rz = ctx, lib, rz
        self.attr_sites = []

    def run(self):
        lib, ctx = self.lib, self.ctx
        for m, tree in lib.trees.items():
            for n, v in lib.env[m].items():
                if v[0] == "from" and v[3] and lib.resolve(m, n) is None:
                    ctx.fail("C21-names", "%s.%s" % (m, n), "%s imports %s from %s, which does not define it" % (lib.site(m, "", v[3]), v[2], v[1]))
            top = Info(m, "", tree)
            self.scope(top, [])
        self.externals()

    def scope(self, f, outer):
        """f: Info whose node is a module, function, class or lambda; outer: scopes around it, innermost last"""
        lib, ctx = self.lib, self.ctx
        node = f.node
        if isinstance(node, FUNCS + (ast.Lambda,)):
            names, away = locals_of(node)
        else:
            names, away = set(), set()
            if isinstance(node, ast.ClassDef):
                for x in scope_walk(node):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        names.add(x.id)
                    elif isinstance(x, FUNCS + (ast.ClassDef,)):
                        names.add(x.name)
                    elif isinstance(x, (ast.Import, ast.ImportFrom)):
                        names |= {al.asname or al.name.split(".")[0] for al in x.names}
        # names first
        visible = set().union(*[o for k, o in outer if k != "class"]) if outer else set()
        for x in self.here(node):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                if x.id in names or x.id in visible:
                    ctx.ok("C21-names")
                elif lib.resolve(f.mod, x.id) is not None or x.id in ("__class__",):
                    ctx.ok("C21-names")
                else:
                    ctx.fail("C21-names", "%s.%s:%s" % (f.mod, f.qual, x.id), "the name %s used at %s is defined nowhere" % (x.id, lib.site(f.mod, f.qual, x.lineno)))
            elif isinstance(x, ast.Attribute):
                self.attribute(f, x, names | visible)
            elif isinstance(x, ast.Call):
                self.call(f, x, names | visible)
        # bound before read
        if isinstance(node, FUNCS):
            a = node.args
            args = {y.arg for y in a.posonlyargs + a.args + a.kwonlyargs} | ({a.vararg.arg} if a.vararg else set()) | ({a.kwarg.arg} if a.kwarg else set())
            fl = Flow(ctx, lib, self.rz, f, frozenset(names))
            fl.block(node.body, (frozenset(args), {}))
            self.flow(f, fl)
        elif isinstance(node, ast.Module):
            defined = {n for n, v in lib.env[f.mod].items() if v[0] in ("func", "class", "var")}
            fl = Flow(ctx, lib, self.rz, f, frozenset(defined))
            stars = {n for n, v in lib.env[f.mod].items() if v[0] not in ("func", "class", "var")}
            fl.block(node.body, (frozenset(), {}))
            self.flow(f, fl)
        kind = "class" if isinstance(node, ast.ClassDef) else "func"
        inner = outer + ([(kind, names)] if not isinstance(node, ast.Module) else [])
        for x in self.here(node):
            if isinstance(x, FUNCS):
                self.scope(x._info, inner)
            elif isinstance(x, ast.ClassDef):
                self.scope(x._info, inner)
            elif isinstance(x, ast.Lambda):
                g = Info(f.mod, f.qual + ".<lambda>", x, f.cls)
                self.scope(g, inner)

    def flow(self, f, fl):
        for n, line in sorted(set(fl.bad)):
            self.ctx.fail("C21-bound", "%s.%s:%s" % (f.mod, f.qual, n), "%s may be read at %s before anything was assigned to it" % (n, self.lib.site(f.mod, f.qual, line)))
        self.ctx.ok("C21-bound", max(fl.reads - len(set(fl.bad)), 0) or 1)

    def here(self, node):
        """nodes of a scope; names bound by comprehensions are left out together with their uses"""
        def go(x, hidden):
            if isinstance(x, FUNCS):
                yield x
                for y in x.decorator_list + x.args.defaults + [d for d in x.args.kw_defaults if d]:
                    yield from go(y, hidden)
                return
            if isinstance(x, ast.ClassDef):
                yield x
                for y in x.decorator_list + x.bases + [k.value for k in x.keywords]:
                    yield from go(y, hidden)
                return
            if isinstance(x, ast.Lambda):
                yield x
                for y in x.args.defaults + [d for d in x.args.kw_defaults if d]:
                    yield from go(y, hidden)
                return
            if isinstance(x, COMPS):
                own = hidden | {n for g in x.generators for n in bound_names(g.target)}
                yield from go(x.generators[0].iter, hidden)
                for i, g in enumerate(x.generators):
                    if i:
                        yield from go(g.iter, own)
                    for c in g.ifs:
                        yield from go(c, own)
                if isinstance(x, ast.DictComp):
                    yield from go(x.key, own)
                    yield from go(x.value, own)
                else:
                    yield from go(x.elt, own)
                return
            if isinstance(x, ast.Name) and x.id in hidden:
                return
            yield x
            for y in ast.iter_child_nodes(x):
                yield from go(y, hidden)

        body = node.body if isinstance(node.body, list) else [node.body]
        for s in body:
            yield from go(s, frozenset())

    def attribute(self, f, x, names):
        lib, ctx = self.lib, self.ctx
        if not isinstance(x.ctx, ast.Load):
            return
        me = None
        if f.cls is not None and isinstance(f.node, FUNCS):
            me = first_arg(f.node)
        if isinstance(x.value, ast.Name) and x.value.id == me:
            deco = [ast.unparse(d) for d in f.node.decorator_list]
            if "staticmethod" in deco:
                return
            if lib.has_attr(f.cls, x.attr, instance="classmethod" not in deco):
                ctx.ok("C21-attributes")
            else:
                ctx.fail("C21-attributes", "%s.%s:%s" % (f.mod, f.qual, x.attr), "%s has no attribute %s, read at %s" % (f.cls.qual, x.attr, lib.site(f.mod, f.qual, x.lineno)))
            return
        b = lib.expr(f.mod, x.value, names)
        if b is None:
            self.attr_sites.append((f, x))
            return
        if b[0] == "mod":
            if lib.resolve(b[1], x.attr) is None or (lib.resolve(b[1], x.attr)[0] == "builtin"):
                ctx.fail("C21-attributes", "%s.%s:%s" % (f.mod, f.qual, x.attr), "module %s does not define %s, used at %s" % (b[1], x.attr, lib.site(f.mod, f.qual, x.lineno)))
            else:
                ctx.ok("C21-attributes")
        elif b[0] == "class":
            if lib.has_attr(b[1], x.attr, instance=False):
                ctx.ok("C21-attributes")
            else:
                ctx.fail("C21-attributes", "%s.%s:%s" % (f.mod, f.qual, x.attr), "%s does not define %s, used at %s" % (b[1].qual, x.attr, lib.site(f.mod, f.qual, x.lineno)))
        elif b[0] in ("ext", "extname"):
            self.attr_sites.append((f, x, b))
        elif b[0] == "builtin":
            if not hasattr(getattr(builtins, b[1]), x.attr):
                ctx.fail("C21-attributes", "%s.%s:%s" % (f.mod, f.qual, x.attr), "%s has no attribute %s, used at %s" % (b[1], x.attr, lib.site(f.mod, f.qual, x.lineno)))

    def externals(self):
        """names of other modules, looked up in the installed modules themselves"""
        import json

        lib, ctx = self.lib, self.ctx
        ask = {k: set(v) for k, v in lib.external.items()}
        wanted = []
        mods = set(ask) | {"builtins", "xml.etree.ElementTree", "xml.dom.minidom", "numpy", "copy", "datetime"}
        for m in list(mods):
            ask.setdefault(m, set())
        for s in self.attr_sites:
            if len(s) == 3:
                f, x, b = s
                d = b[1] if b[0] == "ext" else None
                if d in ask:
                    ask[d].add(x.attr)
                    wanted.append((f, x, d))
        for m, env in lib.env.items():
            for n, v in env.items():
                if v[0] == "extname":
                    wanted.append((Info(m, "", None), v, v[1]))
        py = next((p for p in ("/opt/venv/bin/python", sys.executable) if os.path.exists(p)), sys.executable)
        res = subprocess.run([py, "-I", "-c", PROBE], input=json.dumps({k: sorted(v) for k, v in ask.items()}), capture_output=True, text=True, timeout=120)
        if res.returncode:
            ctx.extra["external_names"] = "not decided: %s" % res.stderr.strip()[-200:]
            return
        out = json.loads(res.stdout)
        for f, x, d in wanted:
            have = out["attrs"].get(d)
            if have is None:
                ctx.fail("C21-names", "%s:%s" % (f.mod, d), "module %s imported in %s does not exist" % (d, lib.paths[f.mod]))
                continue
            attr = x.attr if isinstance(x, ast.Attribute) else x[2]
            if attr in have:
                ctx.ok("C21-names")
            elif d + "." + attr in ask:
                ctx.ok("C21-names")
            else:
                ctx.fail("C21-names", "%s.%s:%s.%s" % (f.mod, f.qual, d, attr), "module %s has no %s, used in %s" % (d, attr, lib.site(f.mod, f.qual, getattr(x, "lineno", 0))))
        known = set(out["members"]) | lib.outside
        for c in lib.classes.values():
            known |= set(c.own) | c.slots | c.builtin
        for s in self.attr_sites:
            if len(s) == 2:
                f, x = s
                if x.attr in known or lib.anyname:
                    ctx.ok("C21-attributes")
                else:
                    ctx.fail("C21-attributes", "%s.%s:%s" % (f.mod, f.qual, x.attr), "no object has an attribute %s, read at %s" % (x.attr, lib.site(f.mod, f.qual, x.lineno)))
        self.known = known

    # ---------------------------------------------------------------- calls
    def call(self, f, x, names):
        lib, ctx = self.lib, self.ctx
        fn = x.func
        cands, skip = None, 0
        r = lib.expr(f.mod, fn, names)
        if r is not None and r[0] == "func":
            g = r[1]
            if not isinstance(g.node, FUNCS):
                return
            cands = [(g, 1 if (g.cls is not None and isinstance(fn, ast.Attribute) and "classmethod" in [ast.unparse(d) for d in g.node.decorator_list]) else 0)]
        elif r is not None and r[0] == "class":
            c = r[1]
            if any(k.open or k.builtin or k.node.decorator_list for k in lib.mro(c)):
                return
            if any("__new__" in k.own for k in lib.mro(c)):
                return
            g = lib.member(c, "__init__")
            if g is None:
                if x.args or x.keywords:
                    ctx.fail("C21-arguments", "%s.%s:%s" % (f.mod, f.qual, c.qual), "%s takes no arguments, called at %s" % (c.qual, lib.site(f.mod, f.qual, x.lineno)))
                return
            cands = [(g, 1)]
        elif isinstance(fn, ast.Attribute):
            me = first_arg(f.node) if f.cls is not None and isinstance(f.node, FUNCS) else None
            if isinstance(fn.value, ast.Name) and fn.value.id == me:
                g = lib.member(f.cls, fn.attr)
                if g is None or not isinstance(g.node, FUNCS):
                    return
                cands = [(g, 0 if "staticmethod" in [ast.unparse(d) for d in g.node.decorator_list] else 1)]
                if "property" in [ast.unparse(d) for d in g.node.decorator_list]:
                    return
            elif isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super" and f.cls is not None:
                for k in lib.mro(f.cls)[1:]:
                    if isinstance(k.own.get(fn.attr), Info):
                        cands = [(k.own[fn.attr], 1)]
                        break
            else:
                ms = lib.methods.get(fn.attr, [])
                if not ms or fn.attr in COMMON or lib.expr(f.mod, fn.value, names) is not None:
                    return
                cands = []
                for c, g in ms:
                    if not isinstance(g.node, FUNCS) or g.node.decorator_list:
                        return
                    cands.append((g, 1))
        if not cands:
            return
        why = [binds(g.node, x, skip) for g, skip in cands]
        if all(why):
            ctx.fail("C21-arguments", "%s.%s:%s" % (f.mod, f.qual, ast.unparse(fn)), "the call of %s at %s does not fit: %s" % (ast.unparse(fn), lib.site(f.mod, f.qual, x.lineno), why[0]))
        else:
            ctx.ok("C21-arguments")


COMMON = set(dir(list)) | set(dir(dict)) | set(dir(str)) | set(dir(set)) | {"write", "open", "find", "set", "text"}


def binds(fn, call, skip):
    """None when a call can bind its arguments, otherwise why not"""
    a = fn.args
    if any(isinstance(d, ast.Name) and d.id not in ("staticmethod", "classmethod") for d in fn.decorator_list):
        return None
    pos = [p.arg for p in a.posonlyargs + a.args][skip:]
    need = len(pos) - len(a.defaults)
    if any(isinstance(z, ast.Starred) for z in call.args) or any(k.arg is None for k in call.keywords):
        stars = True
    else:
        stars = False
    n = len([z for z in call.args if not isinstance(z, ast.Starred)])
    if n > len(pos) and a.vararg is None:
        return "%d positional arguments for %d parameters" % (n, len(pos))
    given = set(pos[:n])
    only = {p.arg for p in a.kwonlyargs}
    posonly = {p.arg for p in a.posonlyargs}
    for k in call.keywords:
        if k.arg is None:
            continue
        if k.arg in given and not stars:
            return "argument %s is given twice" % k.arg
        if (k.arg not in pos or k.arg in posonly) and k.arg not in only and a.kwarg is None:
            return "there is no parameter %s" % k.arg
        given.add(k.arg)
    if not stars:
        for p in pos[:max(need, 0)]:
            if p not in given:
                return "the argument for %s is missing" % p
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is None and p.arg not in given:
                return "the argument for %s is missing" % p.arg
    return None


def unreachable(lib, f, rz):
    """raise statements behind a statement that always leaves the block"""
    out = []

    def go(body):
        gone = False
        for s in body:
            if gone:
                for y in ast.walk(s):
                    if isinstance(y, ast.Raise):
                        out.append(y)
            else:
                for name in ("body", "orelse", "finalbody"):
                    b = getattr(s, name, None)
                    if isinstance(b, list) and b and isinstance(b[0], ast.stmt) and not isinstance(s, FUNCS + (ast.ClassDef,)):
                        if isinstance(s, (ast.If, ast.While)) and isinstance(s.test, ast.Constant):
                            if bool(s.test.value) != (name == "body"):
                                for z in b:
                                    out.extend(y for y in ast.walk(z) if isinstance(y, ast.Raise))
                                continue
                        go(b)
                for h in getattr(s, "handlers", ()):
                    go(h.body)
            if isinstance(s, (ast.Return, ast.Raise, ast.Break, ast.Continue)):
                gone = True
    go(f.node.body)
    return out


def c21(ctx):
    ctx.current = "syntax trees"
    lib = Library()
    rz = Raising(lib)
    er = Errors(ctx, lib, rz)
    mods = [Info(m, "", t) for m, t in lib.trees.items()]
    for f in lib.funcs + mods:
        if isinstance(f.node, FUNCS):
            ctx.funcs[(lib.paths[f.mod], f.qual)] = f.node.lineno
        er.scope(f)
        er.handlers(f)
        for y in unreachable(lib, f, rz):
            ctx.fail("C21-raised", "%s.%s:unreachable" % (f.mod, f.qual), "the error at %s can never be raised, the statement is not reachable" % lib.site(f.mod, f.qual, y.lineno))
    for c in lib.classes.values():
        er.scope(Info(c.mod, c.qual, c.node, None))
    Names(ctx, lib, rz).run()
    ctx.extra["functions"] = len(lib.funcs)
    ctx.extra["classes"] = len(lib.classes)
    scenarios(ctx)


LINKED = """
import pyodrx as p
RD, JN, S, E_ = p.ElementType.road, p.ElementType.junction, p.ContactPoint.start, p.ContactPoint.end
def net(*roads):
    od = p.OpenDrive('n')
    for r in roads:
        od.add_road(r)
    return od
def road(i, left, right, kind=-1, geo=None):
    return p.create_road(geo or p.Line(L), i, left, right, road_type=kind)
def lonely():
    lane = p.Lane(a=3)
    return lane
"""


def scenarios(ctx):
    """every detection, driven with unbounded values and numeric or textual ids: the documented error, and no other, arrives"""
    from .. import terms as T
    from ..terms import SStr, Sym

    I = ctx.interp()
    b = {n: T.nsym(n) for n in ("L", "x", "y", "h", "k1", "k2", "ang", "rate", "i", "j")}
    b["t"] = SStr([Sym("t", "str")])
    cases = [
        ("a spiral without length, angle or rate", "p.Spiral(k1, k2)", "NotEnoughInputArguments"),
        ("a spiral with length and angle", "p.Spiral(k1, k2, length=L, angle=ang)", "ToManyOptionalArguments"),
        ("a spiral with angle and rate", "p.Spiral(k1, k2, angle=ang, cdot=rate)", "ToManyOptionalArguments"),
        ("a spiral with everything", "p.Spiral(k1, k2, L, ang, rate)", "ToManyOptionalArguments"),
        ("an arc without length or angle", "p.Arc(0.1)", "NotEnoughInputArguments"),
        ("an arc with length and angle", "p.Arc(0.1, L, ang)", "ToManyOptionalArguments"),
        ("an arc without curvature", "p.Arc(0, L)", "ValueError"),
        ("a plan view with x only", "p.PlanView(x)", "NotEnoughInputArguments"),
        ("a plan view without heading", "p.PlanView(x, y)", "NotEnoughInputArguments"),
        ("a plan view with heading only", "p.PlanView(h_start=h)", "NotEnoughInputArguments"),
        ("an arc-length polynomial without length", "p.ParamPoly3(x, y, h, k1, k2, ang, rate, i, 'arcLength')", "ValueError"),
        ("a lane outside any section", "lonely().get_attributes()", "ValueError"),
        ("a lane outside any section, written", "lonely().get_element()", "ValueError"),
    ]
    for who in ("i", "t", "7", "'7'"):
        cases += [
            ("second successor, id %s" % who, "r = road(%s, 1, 1)\nr.add_successor(RD, %s, S)\nr.add_successor(RD, j, S)" % (who, who), "ValueError"),
            ("second predecessor, id %s" % who, "r = road(%s, 1, 1)\nr.add_predecessor(JN, %s)\nr.add_predecessor(RD, j, S)" % (who, who), "ValueError"),
            ("third neighbour, id %s" % who, "r = road(%s, 1, 1)\nfor n in (1, 2, 3):\n    r.add_neighbor(RD, %s, p.Direction.same)" % (who, who), "ValueError"),
            ("roadside object on a road %s that was not positioned" % who, "road(%s, 1, 1).add_object_roadside(p.Object(0, 0), 5)" % who, "RoadsAndLanesNotAdjusted"),
            ("a second road %s" % who, "net(road(%s, 1, 1), road(%s, 1, 1))" % (who, who), "ValueError"),
        ]
    for a, c in (("1", "2"), ("'a'", "'b'"), ("t", "'2' + t"), ("1", "'b'")):
        for left, right in ((1, 0), (0, 1), (1, 1)):
            for turn in (False, True):
                l1, l2 = (1 + left, 1) if not turn else (1, 1 + left)
                r1, r2 = (1 + right, 1) if not turn else (1, 1 + right)
                cases.append(
                    (
                        "consecutive roads %s and %s with %d+%d and %d+%d lanes" % (a, c, l1, r1, l2, r2),
                        "q = road(%s, %d, %d)\nr = road(%s, %d, %d)\nq.add_successor(RD, r.id, S)\nr.add_predecessor(RD, q.id, E_)\nnet(q, r).adjust_roads_and_lanes()" % (a, l1, r1, c, l2, r2),
                        "NotSameAmountOfLanesError",
                    )
                )
        cases += [
            ("roads %s and %s without links" % (a, c), "net(road(%s, 1, 1), road(%s, 1, 1)).adjust_roads_and_lanes()" % (a, c), "UndefinedRoadNetwork"),
            ("roads %s and %s without links, start points only" % (a, c), "net(road(%s, 1, 1), road(%s, 1, 1)).adjust_startpoints()" % (a, c), "UndefinedRoadNetwork"),
            ("a link to a road that was not added, ids %s and %s" % (a, c), "q = road(%s, 1, 1)\nq.add_successor(RD, 99, S)\nnet(q, road(%s, 1, 1)).adjust_roads_and_lanes()" % (a, c), "UndefinedRoadNetwork"),
            (
                "a road link without contact point, ids %s and %s" % (a, c),
                "q = road(%s, 1, 1)\nr = road(%s, 1, 1)\nq.add_successor(RD, r.id)\nr.add_predecessor(RD, q.id)\nnet(q, r).adjust_roads_and_lanes()" % (a, c),
                "ValueError",
            ),
            (
                "a predecessor link without contact point, ids %s and %s" % (a, c),
                "q = road(%s, 1, 1)\nr = road(%s, 1, 1)\nr.add_predecessor(RD, q.id)\nnet(q, r).adjust_roads_and_lanes()" % (a, c),
                "ValueError",
            ),
            (
                "junction arms with different lane counts, ids %s and %s" % (a, c),
                "q = p.create_straight_road(%s, 100, -1, 1)\nr = p.create_straight_road(%s, 100, -1, 2)\np.create_junction_roads([q, r], [0, 3], 8)" % (a, c),
                "NotSameAmountOfLanesError",
            ),
            (
                "junction arms with different lane counts on the right, ids %s and %s" % (a, c),
                "q = road(%s, 1, 2)\nr = road(%s, 1, 1)\np.create_junction_roads([q, r], [0, 3], 8)" % (a, c),
                "NotSameAmountOfLanesError",
            ),
        ]
    for label, code, err in cases:
        I.st = None
        r = ctx.run(I, LINKED + code + "\n", b, label)
        ctx.raises(I, r, "C21-arrives", label, err, what=label)
    ctx.done(I)
