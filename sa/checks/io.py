"""C13, C38: what is written to files and which processes are started; recorded as effects, never performed."""
from .. import terms as T
from ..harness import instance
from ..interp import Undecided
from ..terms import Fn, Ite, Ref, SStr, StrOf, Sym, Tup, b_and, leaves, same, show, simp
from .heap import MODEL, model_binds, both
from .serial import nums, text

UTF8 = ("utf-8", "utf8", "u8", "utf-8-sig")


def effects(ctx, I, r):
    """(guard, effect tuple) recorded during a run, in order"""
    out = []
    for g, e in r.end.heap.get(I.effects.a, I.base.get(I.effects.a)).items:
        g = b_and(g, r.pc)
        if g is not False:
            for c, t in leaves(simp(e, g), g):
                if I.feasible(c):
                    out.append((c, t))
    return out


def norm_enc(e):
    return e.lower().replace("_", "-") if isinstance(e, str) else e


def one_leaf(v, c):
    ls = list(leaves(simp(v, c), c))
    return ls[0][1] if len(ls) == 1 else None


def situations(ctx, I, r):
    """the effects that happen together: split the effects by their guards"""
    parts = [r.pc]
    es = effects(ctx, I, r)
    for g, _ in es:
        nxt = []
        for p in parts:
            for q in (b_and(p, g), b_and(p, T.b_not(g))):
                if q is not False and I.feasible(q):
                    nxt.append(q)
        parts = nxt
    for p in parts:
        yield p, [t for g, t in es if b_and(p, g) is not False and I.feasible(b_and(p, g))]


class Disk:
    """files after the effects, by name"""

    def __init__(self, ctx, I, r, rule, label, cond):
        self.ctx, self.I, self.r, self.rule, self.label, self.cond = ctx, I, r, rule, label, cond
        self.files = []  # [name, file ref, mode, [values]]
        self.procs = []
        self.open_at_proc = []

    def bad(self, text):
        self.ctx.fail(self.rule, self.label, text)
        return False

    def play(self, es):
        for t in es:
            items = t.items
            if items[0] == "open":
                _, f, name, mode, loc = items
                mode = one_leaf(mode, self.cond) or "r"
                if not isinstance(mode, str):
                    raise Undecided("file mode")
                if "r" in mode and "+" not in mode:
                    continue
                if mode.replace("t", "").replace("b", "").replace("+", "") != "w":
                    return self.bad("the file is opened with mode %r at %s, so what was in it before decides what it holds" % (mode, loc))
                self.files.append([simp(name, self.cond), f, mode, [], loc])
            elif items[0] == "write":
                _, f, v, loc = items
                for e in self.files:
                    if e[1] is f:
                        e[3].append((simp(v, self.cond), loc))
            elif items[0] == "proc":
                _, kind, a, k, loc = items
                if kind in ("os.makedirs", "os.mkdir"):
                    continue
                if kind in ("os.rename", "os.replace", "shutil.move"):
                    src, dst = [simp(x, self.cond) for x in a.items[:2]]
                    for e in self.files:
                        if same(e[0], src):
                            e[0] = dst
                    continue
                self.procs.append((kind, a.items, {n.items[0]: n.items[1] for n in k.items}, loc, len(self.files)))
            else:
                raise Undecided("effect %s" % show(items[0]))
        return True

    def closed(self, f):
        h = self.r.end.heap.get(f.a) or self.I.base[f.a]
        return simp(h.d["closed"], self.cond) is True

    def encoding(self, f):
        h = self.r.end.heap.get(f.a) or self.I.base[f.a]
        return norm_enc(one_leaf(h.d["encoding"], self.cond))

    def document(self, entry):
        """the one element written to a file, in an encoding that keeps every character; None and a report otherwise"""
        name, f, mode, values, loc = entry
        docs = []
        for v, at in values:
            parts = v.parts if isinstance(v, SStr) else [v]
            for q in parts:
                if isinstance(q, Fn) and q.name == "ser-misdecoded":
                    self.bad("the document is encoded and decoded with different encodings before it is written at %s" % at)
                    return None
                if isinstance(q, Fn) and q.name == "ser":
                    docs.append((q, at))
                elif isinstance(q, str) and (not q.strip() or (not docs and q.lstrip().startswith("<?xml") and "encoding" not in q)):
                    continue
                elif isinstance(q, bytes) and not q.strip():
                    continue
                else:
                    self.bad("something else than the document is written at %s: %s" % (at, show(q)))
                    return None
        if len(docs) != 1:
            self.bad("the document is written %d times into the file opened at %s" % (len(docs), loc))
            return None
        q, at = docs[0]
        elem, kind, enc = q.args
        binary = "b" in mode
        if (kind == "bytes") != binary:
            self.bad("%s are written to a file opened in mode %r at %s" % (kind, mode, at))
            return None
        if kind == "text" and self.encoding(f) not in UTF8:
            self.bad("text is written without naming UTF-8 as the file's encoding (opened at %s), so other characters than ASCII depend on the platform" % loc)
            return None
        if not self.closed(f):
            self.bad("the file opened at %s is not closed when the call returns" % loc)
            return None
        return elem


def check_file(ctx, I, r, rule, label, want_name, want="x", procs=0, care=None):
    done = 0
    for cond, es in situations(ctx, I, r):
        d = Disk(ctx, I, r, rule, label, cond)
        if not d.play(es):
            continue
        if d.procs and not procs:
            d.bad("a process is started or a file is changed: %s at %s" % (d.procs[0][0], d.procs[0][3]))
            continue
        # a later write of the same name replaces the earlier
        final = []
        for e in d.files:
            final = [x for x in final if not same(x[0], e[0])] + [e]
        if len(final) != 1:
            d.bad("%d files are written" % len(final))
            continue
        ctx.eq(I, rule + "-name", label, final[0][0], want_name, cond, "the file name")
        elem = d.document(final[0])
        if elem is None:
            continue
        ctx.ok(rule)
        ctx.xml(I, rule + "-document", label, elem, r[want], cond)
        done += 1
    return done


def c13(ctx):
    ctx.ignore = ("date",)
    I = ctx.interp()
    b = dict(model_binds(), fname=SStr([Sym("fname", "str")]), nname=SStr([Sym("nname", "str")]))
    name = b["nname"]
    # particular names first: text operations on a name are decided exactly there
    for nn in ("net", "a.xodr", "a.b", "net.xodr.v2", ".xodr", "a/b c", "N\xe4t \u9053", " x ", "X.XODR", "007", "", "a.xml"):
        for what, args, want in (("no file name", "", nn + ".xodr"), ("no file name, compact", "prettyprint=False", nn + ".xodr"), ("the same as file name", repr(nn or "f"), nn or "f")):
            label = "write_xml(%s) of a network named %r" % (args, nn)
            r = ctx.run(I, "od = p.OpenDrive(%r)\nod.add_road(p.create_straight_road(1, L))\nod.adjust_roads_and_lanes()\nod.write_xml(%s)\nx = od.get_element()\n" % (nn, args), b, label)
            if ctx.no_raise(r, "C13-accepts", label):
                check_file(ctx, I, r, "C13-file", label, want)
    for what, args, want in (
        ("no file name", "", T.sstr([name, ".xodr"])),
        ("None as file name", "None", T.sstr([name, ".xodr"])),
        ("file name", "fname", b["fname"]),
        ("file name by keyword", "filename=fname", b["fname"]),
        ("fixed file name", "'a b/c.xodr'", "a b/c.xodr"),
        ("file name without extension", "'net'", "net"),
    ):
        for how, more in (("pretty by default", ""), ("pretty", "prettyprint=True"), ("compact", "prettyprint=False")):
            call = ", ".join(x for x in (args, more) if x)
            label = "write_xml(%s)" % call
            code = MODEL + "od, made = build()\nod.name = nname\nod.adjust_roads_and_lanes()\nod.write_xml(%s)\nx = od.get_element()\n" % call
            code = code.replace("od = p.OpenDrive('net')", "od = p.OpenDrive(nname)").replace("od.name = nname\n", "")
            I.st = None
            r = ctx.run(I, code, b, label)
            if ctx.no_raise(r, "C13-accepts", label):
                check_file(ctx, I, r, "C13-file", label, want)
    # an empty network, a network with one road, and one that is written again after a change
    for what, build in (("an empty network", "od = p.OpenDrive(nname)\n"), ("one road", "od = p.OpenDrive(nname)\nod.add_road(p.create_straight_road(1, L))\nod.adjust_roads_and_lanes()\n"), ("written again", "od = p.OpenDrive(nname)\nod.add_road(p.create_straight_road(1, L))\nod.adjust_roads_and_lanes()\nod.write_xml(fname)\nod.add_road(p.create_straight_road(2, L))\nod.add_junction(p.Junction('j', 1))\n")):
        for more in ("", ", prettyprint=False", ", False"):
            label = "%s, write_xml(fname%s)" % (what, more)
            r = ctx.run(I, build + "od.write_xml(fname%s)\nx = od.get_element()\n" % more, b, label)
            if ctx.no_raise(r, "C13-accepts", label):
                check_file(ctx, I, r, "C13-file", label, b["fname"])
    # the helper itself
    for more in ("", ", True", ", False", ", prettyprint=False"):
        label = "printToFile(element, file%s)" % more
        r = ctx.run(I, "import pyodrx.helpers\nod = p.OpenDrive(nname)\nod.add_road(p.create_straight_road(1, L))\nod.adjust_roads_and_lanes()\nx = od.get_element()\npyodrx.helpers.printToFile(x, fname%s)\n" % more, b, label)
        if ctx.no_raise(r, "C13-accepts", label):
            check_file(ctx, I, r, "C13-file", label, b["fname"])
    # writing does not change what is written next
    r1 = ctx.run(I, MODEL + "od, made = build()\nod.adjust_roads_and_lanes()\nx = od.get_element()\n", b, "not written")
    for more in ("", ", prettyprint=False"):
        r2 = ctx.run(I, MODEL + "od, made = build()\nod.adjust_roads_and_lanes()\nod.write_xml(fname%s)\nx = od.get_element()\n" % more, b, "written before")
        if ctx.no_raise(r1, "C13-accepts", "not written") and ctx.no_raise(r2, "C13-accepts", "written before"):
            ctx.xml(I, "C13-same", "the document after writing", r2["x"], r1["x"], both(I, r1, r2))
    ctx.done(I)


# --------------------------------------------------------------------------------------------------
SHELLS = ("os.system", "os.popen", "subprocess.getoutput", "subprocess.getstatusoutput")
WRAP = ("os.path.abspath", "os.path.normpath", "os.path.realpath", "os.path.expanduser")


def bare(v):
    """a path without the wrappers that only make it absolute or tidy"""
    while isinstance(v, SStr) and len(v.parts) == 1 and isinstance(v.parts[0], Fn) and v.parts[0].name in WRAP:
        v = v.parts[0].args[0]
    return v


def c38(ctx):
    ctx.ignore = ("date",)
    I = ctx.interp()
    path, dens = SStr([Sym("esmini", "str")]), T.nsym("dens")
    b = dict(model_binds(), epath=path, dens=dens)
    b["nname"] = text("nname")
    seen = set()
    for what, args, wpath, wdens in (
        ("any path and density", "od, epath, dens", "epath", "dens"),
        ("any path", "od, epath", "epath", "15"),
        ("defaults", "od", "'esmini'", "15"),
        ("keywords", "od, density=dens, esminipath=epath", "epath", "dens"),
        ("a path with blanks", "od, 'my esmini; rm x', 7", "'my esmini; rm x'", "7"),
        ("an absolute path", "od, '/opt/es mini', 0", "'/opt/es mini'", "0"),
        ("density as text", "od, epath, '1 2'", "epath", "'1 2'"),
        ("no density", "od, density=0", "'esmini'", "0"),
    ):
        label = "run_road(%s)" % args
        code = "import os\nod = p.OpenDrive(nname)\nod.add_road(p.create_straight_road(1, L))\nod.adjust_roads_and_lanes()\nx = od.get_element()\nwname = os.path.join(%s, 'resources', 'xodr', 'pythonroad.xodr')\nwexe = os.path.join(%s, 'bin', 'odrviewer')\nwexe2 = os.path.join('.', wexe)\nwdens = str(%s)\np.run_road(%s)\n" % (wpath, wpath, wdens, args)
        r = ctx.run(I, code, b, label)
        if not ctx.no_raise(r, "C38-accepts", label):
            continue
        for cond, es in situations(ctx, I, r):
            w = instance(cond)
            if w is None:
                continue
            platform = [n for n in ("posix", "nt") if same(I_eq(I, cond, n), True)]
            at = label + (" on %s" % platform[0] if platform else "")
            d = Disk(ctx, I, r, "C38-launch", at, cond)
            if not d.play(es):
                continue
            if not platform and not d.procs:
                # platforms the viewer does not exist for
                continue
            final = []
            for e in d.files:
                final = [x for x in final if not same(x[0], e[0])] + [e]
            if len(final) != 1:
                d.bad("%d files are written" % len(final))
                continue
            ctx.eq(I, "C38-file", at, bare(final[0][0]), r["wname"], cond, "the file name")
            elem = d.document(final[0])
            if elem is not None:
                ctx.xml(I, "C38-file", at, elem, r["x"], cond)
            if len(d.procs) != 1:
                d.bad("%d processes are started" % len(d.procs))
                continue
            kind, a, k, loc, before = d.procs[0]
            seen.add(platform[0] if platform else "other")
            if before < 1:
                d.bad("the viewer is started at %s before the file is written" % loc)
                continue
            if kind in SHELLS or simp(k.get("shell", False), cond) is not False:
                if not quoted(simp(a[0], cond)):
                    d.bad("%s at %s hands the paths to a shell" % (kind, loc))
                    continue
                d.bad("%s at %s: a shell command" % (kind, loc)) if not quoted_command(ctx, simp(a[0], cond)) else ctx.ok("C38-launch")
                continue
            argv = simp(a[0] if a else k.get("args"), cond)
            if not isinstance(argv, Ref):
                if isinstance(argv, Tup):
                    items = [(True, x) for x in argv.items]
                else:
                    d.bad("%s at %s gets one string, not a list of arguments: %s" % (kind, loc, show(argv)))
                    continue
            else:
                h = r.end.heap.get(argv.a) or I.base[argv.a]
                if h.kind != "list":
                    d.bad("%s at %s does not get a list of arguments" % (kind, loc))
                    continue
                items = h.items
            words = []
            for g, x in items:
                if b_and(g, cond) is False:
                    continue
                words.append(simp(x, b_and(g, cond)))
            if not words:
                d.bad("no program is named at %s" % loc)
                continue
            bad = [x for x in words if not T_is_text(x)]
            if bad:
                d.bad("argument %s of the viewer started at %s is not text" % (show(bad[0]), loc))
                continue
            exe = words[0]
            wants = [simp(r["wexe"], cond), simp(r["wexe2"], cond)]
            wants += [T.sstr([x, ".exe"]) for x in wants]
            if any(same(bare(exe), x) for x in wants):
                ctx.ok("C38-launch")
            else:
                d.bad("the program started at %s is %s, not the viewer in the folder given" % (loc, show(exe)))
            for flag, want, name in (("--odr", simp(r["wname"], cond), "file"), ("--density", simp(r["wdens"], cond), "density")):
                vals = [words[i + 1] if i + 1 < len(words) else None for i, x in enumerate(words) if x == flag]
                if len(vals) != 1 or vals[0] is None or not same(bare(vals[0]) if name == "file" else vals[0], want):
                    d.bad("the viewer started at %s gets %s as %s, expected exactly %s" % (loc, ", ".join(show(v) for v in vals) or "nothing", name, show(want)))
                else:
                    ctx.ok("C38-launch")
            for x in words[1:]:
                # nothing else carries the path or the density
                if isinstance(x, SStr) and not same(bare(x), simp(r["wname"], cond)) and not same(x, simp(r["wdens"], cond)):
                    d.bad("argument %s of the viewer started at %s mixes text and data" % (show(x), loc))
    for n in ("posix", "nt"):
        if n not in seen and not ctx.viol:
            ctx.fail("C38-launch", n, "run_road starts no viewer on %s" % n)
    ctx.done(I)
    launchers(ctx, I)


def I_eq(I, cond, n):
    from ..models import M

    name = M["os.name"]
    return simp(I.eq(name, n), cond)


def T_is_text(x):
    return isinstance(x, (str, SStr, StrOf)) or (isinstance(x, Fn) and x.name not in ("ser", "dom", "tree"))


def quoted(v):
    """does a shell command hold data only in quoted form?"""
    parts = v.parts if isinstance(v, SStr) else [v]
    return all(isinstance(q, str) or (isinstance(q, Fn) and q.name == "quote") for q in parts)


def quoted_command(ctx, v):
    return quoted(v) and isinstance(v, SStr)


def launchers(ctx, I):
    """every call of the package that could start a process was reached above"""
    import ast
    import os as _os

    from ..harness import REPO

    names = {"system", "popen", "run", "call", "check_call", "check_output", "Popen", "getoutput", "getstatusoutput", "startfile", "execv", "execvp", "spawnv", "spawnvp", "spawnl", "spawnlp", "posix_spawn"}
    for fn in sorted(_os.listdir(_os.path.join(REPO, "pyodrx"))):
        if not fn.endswith(".py"):
            continue
        tree = ast.parse(open(_os.path.join(REPO, "pyodrx", fn), encoding="utf-8").read())
        alias = {}
        for n in ast.walk(tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.name in ("os", "subprocess"):
                        alias[a.asname or a.name] = a.name
            if isinstance(n, ast.ImportFrom) and n.module in ("os", "subprocess"):
                for a in n.names:
                    if a.name in names:
                        alias[a.asname or a.name] = n.module + "." + a.name
        for f in ast.walk(tree):
            if not isinstance(f, ast.FunctionDef):
                continue
            for n in ast.walk(f):
                if isinstance(n, ast.Call):
                    t = n.func
                    hit = isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and alias.get(t.value.id) in ("os", "subprocess") and t.attr in names or isinstance(t, ast.Name) and "." in alias.get(t.id, "")
                    if hit:
                        reached = any(str(q[1] if isinstance(q, tuple) else q).split(".")[-1] == f.name for q in ctx.funcs)
                        if reached:
                            ctx.ok("C38-sites")
                        else:
                            ctx.fail("C38-sites", "%s:%s" % (fn, f.name), "starts a process at line %d outside what run_road does" % n.lineno)
