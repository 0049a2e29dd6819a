"""C39: every shipped example parses, every name of the library it uses exists, its calls bind, and no statement of it fails."""
import ast
import io
import os
import tokenize

from ..harness import REPO, instance
from .names import FUNCS, Info, Library, binds


def shipped():
    out = []
    d = os.path.join(REPO, "examples")
    for root, dirs, files in os.walk(d):
        dirs[:] = sorted(x for x in dirs if not x.startswith((".", "__")))
        out += [os.path.join(root, f) for f in sorted(files) if f.endswith(".py")]
    p = os.path.join(REPO, "example.py")
    if os.path.exists(p):
        out.append(p)
    return out


def enum_member(lib, c):
    return any(b == "enum" for k in lib.mro(c) for b in k.bases)


class Uses:
    def __init__(self, ctx, lib, name):
        self.ctx, self.lib, self.name = ctx, lib, name

    def bad(self, line, what, text):
        self.ctx.fail("C39-names", "%s:%s" % (self.name, what), "%s:%d %s" % (self.name, line, text))

    def chain(self, parts, line):
        """package.a.b...: resolves step by step; returns what it names"""
        lib = self.lib
        cur = ("mod", "__init__")
        for i, a in enumerate(parts):
            if cur[0] == "mod":
                nxt = lib.resolve(cur[1], a)
                if nxt is None or nxt[0] == "builtin":
                    self.bad(line, ".".join(parts[: i + 1]), "uses %s, which the library does not define" % ".".join([lib.package] + parts[: i + 1]))
                    return None
                cur = nxt
            elif cur[0] == "class":
                if not lib.has_attr(cur[1], a, instance=False):
                    self.bad(line, ".".join(parts[: i + 1]), "uses %s, which the library does not define" % ".".join([lib.package] + parts[: i + 1]))
                    return None
                m = lib.member(cur[1], a)
                cur = ("func", m) if m is not None else ("var",)
            else:
                return ("var",)
        self.ctx.ok("C39-names")
        return cur

    def tree(self, tree):
        lib = self.lib
        alias, direct = set(), {}
        for x in ast.walk(tree):
            if isinstance(x, ast.Import):
                for al in x.names:
                    if al.name.split(".")[0] == lib.package:
                        if al.name != lib.package:
                            self.chain(al.name.split(".")[1:], x.lineno)
                        if al.asname and "." in al.name:
                            direct[al.asname] = al.name.split(".")[1:]
                        else:
                            alias.add(al.asname or lib.package)
            elif isinstance(x, ast.ImportFrom) and x.module and x.module.split(".")[0] == lib.package:
                base = x.module.split(".")[1:]
                for al in x.names:
                    if al.name == "*":
                        for n in lib.exported(base[0] if base else "__init__"):
                            direct[n] = base + [n]
                    else:
                        self.chain(base + [al.name], x.lineno)
                        direct[al.asname or al.name] = base + [al.name]
        inner = {x.value for x in ast.walk(tree) if isinstance(x, ast.Attribute)}

        def parts(x):
            ps = []
            while isinstance(x, ast.Attribute):
                ps.append(x.attr)
                x = x.value
            if isinstance(x, ast.Name):
                if x.id in alias:
                    return ps[::-1]
                if x.id in direct:
                    return direct[x.id] + ps[::-1]
            return None

        methods = lib.methods
        own = set()
        for x in ast.walk(tree):
            if isinstance(x, FUNCS + (ast.ClassDef,)):
                own.add(x.name)
        for x in ast.walk(tree):
            if isinstance(x, (ast.Attribute, ast.Name)) and x not in inner:
                p = parts(x)
                if p:
                    self.chain(p, x.lineno)
            if isinstance(x, ast.Call):
                p = parts(x.func)
                if p:
                    r = self.quiet(p)
                    g, skip = None, 0
                    if r and r[0] == "func" and isinstance(r[1].node, FUNCS):
                        g = r[1]
                    elif r and r[0] == "class" and not any(k.open or k.builtin or k.node.decorator_list or "__new__" in k.own for k in lib.mro(r[1])):
                        g, skip = lib.member(r[1], "__init__"), 1
                    if g is not None:
                        why = binds(g.node, x, skip)
                        if why:
                            self.ctx.fail("C39-arguments", "%s:%s" % (self.name, ".".join(p)), "%s:%d calls %s, %s" % (self.name, x.lineno, ".".join([lib.package] + p), why))
                        else:
                            self.ctx.ok("C39-arguments")

    def quiet(self, parts):
        cur = ("mod", "__init__")
        for a in parts:
            if cur is None:
                return None
            if cur[0] == "mod":
                cur = self.lib.resolve(cur[1], a)
            elif cur[0] == "class":
                m = self.lib.member(cur[1], a)
                cur = ("func", m) if m is not None else None
            else:
                return None
        return cur

    def tokens(self, src):
        """for a file that does not parse: the dotted names of the library in its tokens"""
        toks = []
        try:
            for t in tokenize.generate_tokens(io.StringIO(src).readline):
                toks.append(t)
        except (tokenize.TokenError, SyntaxError, IndentationError):
            pass
        i = 0
        while i < len(toks):
            if toks[i].type == tokenize.NAME and toks[i].string == self.lib.package and not (i and toks[i - 1].string in ("import", ".", "from")):
                parts, j = [], i + 1
                while j + 1 < len(toks) and toks[j].string == "." and toks[j + 1].type == tokenize.NAME:
                    parts.append(toks[j + 1].string)
                    j += 2
                if parts:
                    self.chain(parts, toks[i].start[0])
                i = j
            else:
                i += 1


def c39(ctx):
    lib = Library()
    files = shipped()
    if not files:
        ctx.fail("C39-shipped", "examples", "no example is shipped")
    for path in files:
        name = os.path.relpath(path, REPO)
        ctx.current = name
        with open(path, encoding="utf-8") as fh:
            src = fh.read()
        u = Uses(ctx, lib, name)
        try:
            tree = ast.parse(src, name)
            compile(tree, name, "exec", dont_inherit=True)
        except (SyntaxError, ValueError) as e:
            ctx.fail("C39-syntax", "%s:%s" % (name, getattr(e, "lineno", "?")), "%s:%s is not a program: %s" % (name, getattr(e, "lineno", "?"), getattr(e, "msg", e)))
            u.tokens(src)
            continue
        ctx.ok("C39-syntax")
        u.tree(tree)
        I = ctx.interp()
        r = ctx.run(I, src, {"__file__": path, "__name__": "__main__"}, name, prelude=False)
        ctx.no_raise(r, "C39-statements", name)
        ctx.sample("%s: %d statements, %d calls" % (name, sum(isinstance(x, ast.stmt) for x in ast.walk(tree)), sum(isinstance(x, ast.Call) for x in ast.walk(tree))))
        ctx.done(I)
    ctx.extra["examples"] = [os.path.relpath(p, REPO) for p in files]
