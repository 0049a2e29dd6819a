"""C14-C20: every short history of calls, with ids and values left open."""
import itertools

from .. import terms as T
from ..harness import decorated, instance
from ..interp import Undecided
from ..terms import SStr, Sym, Tup, b_and
from .heap import HOOKS, unchanged
from .net import Pool
from .serial import nums

CATCH = """
def attempt(f, *a, **k):
    try:
        f(*a, **k)
    except Exception as e:
        return type(e).__name__
    return 'accepted'
"""


def text(n):
    return SStr([Sym(n, "str")])


# -------------------------------------------------------------------------------------------------- ids of signals and objects
IDS = """
def sig(i):
    return p.Signal(1, 2, 'se', 'stop', id=i)
def obj(i):
    return p.Object(1, 2, p.ObjectType.pole, id=i)
def road(i):
    r = p.create_straight_road(i, 100)
    return r
def written(r, kind):
    return [o.get('id') for k in r.get_element() if k.tag == kind + 's' for o in k]
def kept(got, asked, earlier):
    # a supplied id that no earlier one has is kept; one that was not supplied just has to be new
    if asked is None:
        return got not in earlier
    return (str(asked) == got and got not in earlier) or (str(asked) in earlier and got not in earlier)
"""


def c14(ctx):
    jobs = []
    n = 5 if ctx.deep else 4
    for k in range(1, n + 1):
        for pat in itertools.product((0, 1), repeat=k):
            jobs.append(pat)
    parts = [jobs[i::8] for i in range(8)]
    ctx.parallel([lambda ctx, part=part: c14_open(ctx, part) for part in parts] + [c14_values, c14_groups, c14_roadside, c14_long, c14_unusual] + [decorated("Signal Object", j) for j in (c14_values, c14_groups, c14_roadside)])
    ctx.sample("all histories of up to %d additions with ids given (any text) or omitted" % n)


def ids_check(ctx, I, rule, label, kind, setup, adds, asked, binds, rows):
    """adds: code lines; rows: (variable of the object or expression of its written id) in order of adding"""
    code = IDS + setup + adds
    for i, r in enumerate(rows):
        code += "i%d = %s\n" % (i, r)
    for i in range(len(rows)):
        code += "k%d = kept(i%d, %s, [%s])\n" % (i, i, asked[i], ", ".join("i%d" % j for j in range(i)))
    run = ctx.run(I, code, binds, label)
    if not ctx.no_raise(run, rule + "-accepts", label):
        return
    for i in range(len(rows)):
        ctx.eq(I, rule, "%s: %s %d (id %s)" % (label, kind, i + 1, asked[i]), run["k%d" % i], True, run.pc, "a free id that was supplied is kept, any other id is new:")


def c14_open(ctx, patterns):
    names = "abcde"
    for pat in patterns:
        pool = Pool(ctx, 6)
        asked = [names[i] if x else "None" for i, x in enumerate(pat)]
        binds = {n: text(n) for n in names}
        for kind, make in (("signal", "sig"), ("object", "obj")):
            # every addition to its own road, and all to one road
            for how in ("one road", "two roads"):
                setup = "r = [road(1), road(2)]\n"
                adds = "".join("r[%d].add_%s(%s(%s))\n" % (0 if how == "one road" else i % 2, kind, make, a) for i, a in enumerate(asked))
                if how == "one road":
                    rows = ["written(r[0], '%s')[%d]" % (kind, i) for i in range(len(asked))]
                else:
                    rows = ["written(r[%d], '%s')[%d]" % (i % 2, kind, i // 2) for i in range(len(asked))]
                ids_check(ctx, pool.get(), "C14-open", "%ss added to %s with ids %s" % (kind, how, ", ".join(asked)), kind, setup, adds, asked, binds, rows)
        pool.close()


def c14_values(ctx):
    """numbers and texts that are written alike, and ids that look like generated ones"""
    values = ["None", "0", "'0'", "1", "'1'", "''", "'x'", "2"]
    n = 4 if ctx.deep else 3
    pool = Pool(ctx, 40)
    for asked in itertools.product(values, repeat=n):
        for kind, make in (("signal", "sig"), ("object", "obj")):
            if kind == "object" and not ctx.deep and "''" in asked:
                continue
            setup = "r = [road(1)]\n"
            adds = "".join("r[0].add_%s(%s(%s))\n" % (kind, make, a) for a in asked)
            rows = ["written(r[0], '%s')[%d]" % (kind, i) for i in range(n)]
            ids_check(ctx, pool.get(), "C14-values", "%ss with ids %s" % (kind, ", ".join(asked)), kind, setup, adds, asked, {}, rows)
    pool.close()


def c14_unusual(ctx):
    """ids of unusual kinds, twice or more; things added again, with the same or another id: no two different things share one"""
    pool = Pool(ctx, 40)
    for kind, make in (("signal", "sig"), ("object", "obj")):
        for v in ("7.0", "7.5", "-3", "10 ** 12", "True", "'7.0'", "' 1'", "'01'", "'\u00e9'", "'A'", "'None'", "'-1'", "0.0", "1e100", "'a b'"):
            for asked in ([v, v], [v, "None", v, "None"], ["None", v, "str(%s)" % v, "None"], ["str(%s)" % v, v, v]):
                for how in ("singly", "as a list"):
                    setup = "r = [road(1)]\n"
                    if how == "singly":
                        adds = "".join("r[0].add_%s(%s(%s))\n" % (kind, make, a) for a in asked)
                    else:
                        adds = "r[0].add_%s([%s])\n" % (kind, ", ".join("%s(%s)" % (make, a) for a in asked))
                    rows = ["written(r[0], '%s')[%d]" % (kind, i) for i in range(len(asked))]
                    ids_check(ctx, pool.get(), "C14-unusual", "%ss with ids %s, added %s" % (kind, ", ".join(asked), how), kind, setup, adds, asked, {}, rows)
        # any numbers
        for asked in (["n", "n"], ["n", "m"], ["n", "None", "n", "None"], ["None", "n", "m", "None"], ["n", "str(n)", "m"]):
            setup = "r = [road(1)]\n"
            adds = "".join("r[0].add_%s(%s(%s))\n" % (kind, make, a) for a in asked)
            rows = ["written(r[0], '%s')[%d]" % (kind, i) for i in range(len(asked))]
            ids_check(ctx, pool.get(), "C14-unusual", "%ss with the ids %s, n and m any numbers" % (kind, ", ".join(asked)), kind, setup, adds, asked, {"n": T.nsym("n"), "m": T.nsym("m")}, rows)
        for first in ("None", "'0'", "5", "a"):
            for change in ("", "x.id = 'y'\n", "x.id = 1\n", "x.id = None\n"):
                for again in ("r.add_{k}(x)", "q.add_{k}(x)", "r.add_{k}([x])", "q.add_{k}([x])", "r.add_{k}([x, x])", "r.add_{k}([z, x])"):
                    code = IDS + ("r, q = road(1), road(2)\nx, z = {m}({f}), {m}(None)\nr.add_{k}(x)\n" + change + again + "\n").format(k=kind, m=make, f=first)
                    code += "".join("n%d = %s(%s)\nq.add_%s(%s)\n" % (i, make, v, kind, "n%d" % i if i % 2 else "[n%d]" % i) for i, v in enumerate(("'y'", first, "None", "1", "None", "'2'")))
                    code += "xs = [str(o.id) for o in [x%s, n0, n1, n2, n3, n4, n5]]\n" % (", z" if "z" in again else "")
                    code += "twice = tuple([xs[i] for i in range(len(xs)) for j in range(i) if xs[i] == xs[j]])\n"
                    label = "a %s with id %s, %sthen %s, then others" % (kind, first, change.replace("\n", ", "), again.format(k=kind))
                    run = ctx.run(pool.get(), code, {"a": text("a")}, label)
                    if ctx.no_raise(run, "C14-accepts", label):
                        ctx.eq(pool.I, "C14-again", label, run["twice"], Tup([]), run.pc, "ids that different %ss share" % kind)
    pool.close()


def c14_groups(ctx):
    """lists, single additions and both kinds interleaved; ids stay what they were when added"""
    pool = Pool(ctx, 20)
    pats = [["None", "None", "None", "None"], ["'0'", "None", "'0'", "'1'"], ["a", "None", "b", "a"], ["1", "'1'", "None", "0"], ["None", "a", "None", "'1'"]]
    for kind, make, other, omake in (("signal", "sig", "object", "obj"), ("object", "obj", "signal", "sig")):
        for asked in pats:
            for cut in range(5):
                for between in (0, 1):
                    setup = "r = [road(1), road(2)]\n"
                    mixed = "r[0].add_%s(%s(%s))\nr[1].add_%s([%s('0'), %s(None)])\n" % (other, omake, asked[0], other, omake, omake) if between else ""
                    first = ", ".join("%s(%s)" % (make, a) for a in asked[:cut])
                    last = ", ".join("%s(%s)" % (make, a) for a in asked[cut:])
                    adds = mixed + "r[0].add_%s([%s])\n" % (kind, first) + mixed + "r[1].add_%s([%s])\n" % (kind, last)
                    rows = ["written(r[0], '%s')[%d]" % (kind, i) for i in range(cut)] + ["written(r[1], '%s')[%d]" % (kind, i) for i in range(4 - cut)]
                    ids_check(ctx, pool.get(), "C14-groups", "%ss with ids %s, added as lists of %d and %d%s" % (kind, ", ".join(asked), cut, 4 - cut, ", with others in between" if between else ""), kind, setup, adds, asked, {"a": text("a"), "b": text("b")}, rows)
            # stable once added
            I = pool.get()
            code = IDS + "r = road(1)\nq = road(2)\n"
            for i, a in enumerate(asked):
                code += "x%d = %s(%s)\n%s.add_%s(%s)\ne%d = written(%s, '%s')[-1]\n" % (i, make, a, "rq"[i % 2], kind, "x%d" % i if i % 2 else "[x%d]" % i, i, "rq"[i % 2], kind)
            code += "now = tuple([%s])\nthen = tuple([%s])\n" % (", ".join("written(%s, '%s')[%d]" % ("rq"[i % 2], kind, i // 2) for i in range(4)), ", ".join("e%d" % i for i in range(4)))
            run = ctx.run(I, code, {"a": text("a"), "b": text("b")}, "stable ids")
            if ctx.no_raise(run, "C14-accepts", "stable ids"):
                ctx.eq(I, "C14-stable", "%ss with ids %s" % (kind, ", ".join(asked)), run["now"], run["then"], run.pc, "the ids after later additions")
            # each is written once, in order
            I = pool.get()
            code = IDS + "r = road(1)\nr.add_%s([%s])\nr.add_%s(%s)\nr.add_%s([])\nn = len(written(r, '%s'))\n" % (kind, ", ".join("%s(%s)" % (make, a) for a in asked[:3]), kind, "%s(%s)" % (make, asked[3]), kind, kind)
            run = ctx.run(I, code, {"a": text("a"), "b": text("b")}, "all written")
            if ctx.no_raise(run, "C14-accepts", "all written"):
                ctx.eq(I, "C14-groups", "%ss with ids %s" % (kind, ", ".join(asked)), run["n"], 4, run.pc, "number written")
    pool.close()


def c14_long(ctx):
    """many generated ids, then ids that look like each of them; and the other way round"""
    pool = Pool(ctx, 10)
    n = max(6, ctx.literals() + 4)
    for kind, make in (("signal", "sig"), ("object", "obj")):
        for asked, what in (
            (["None"] * n + ["'%d'" % i for i in range(n + 2)] + ["None"] * 2, "generated first"),
            (["None"] * n + [str(i) for i in range(n, -2, -1)], "generated first, then numbers downwards"),
            (["'%d'" % i for i in range(0, n, 2)] + ["None"] * n, "every other id taken"),
            (["'%d'" % i for i in range(n)] + ["None"] * 3 + ["'x'"] + ["None"] * 2, "a run of ids taken"),
            ([q for i in range(n) for q in ("None", "'%d'" % i)], "taken and generated in turn"),
            ([q for i in range(n) for q in ("'%d'" % i, "None")], "generated and taken in turn"),
        ):
            for how in ("singly", "as a list", "two roads"):
                setup = "r = [road(1), road(2)]\n"
                if how == "as a list":
                    adds = "r[0].add_%s([%s])\n" % (kind, ", ".join("%s(%s)" % (make, a) for a in asked))
                    rows = ["written(r[0], '%s')[%d]" % (kind, i) for i in range(len(asked))]
                else:
                    k = 2 if how == "two roads" else 1
                    adds = "".join("r[%d].add_%s(%s(%s))\n" % (i % k, kind, make, a) for i, a in enumerate(asked))
                    rows = ["written(r[%d], '%s')[%d]" % (i % k, kind, i // k) for i in range(len(asked))]
                ids_check(ctx, pool.get(), "C14-long", "%d %ss, %s, added %s" % (len(asked), kind, what, how), kind, setup, adds, asked, {}, rows)
    pool.close()


def c14_roadside(ctx):
    pool = Pool(ctx, 20)
    for proto in ("None", "'0'", "a"):
        for later in ("None", "a", "'1'"):
            setup = "def adjusted(i):\n    r = road(i)\n    r.planview.adjust_geometries()\n    return r\nr = [adjusted(1), adjusted(2)]\n"
            adds = "o = obj(%s)\nr[0].add_object(obj(%s))\nr[0].add_object_roadside(o, 5)\nr[1].add_object_roadside(o, 5)\nr[1].add_object(obj(%s))\n" % (proto, later, later)
            rows = ["written(r[0], 'object')[%d]" % i for i in range(3)] + ["written(r[1], 'object')[%d]" % i for i in range(3)]
            asked = [later, proto, proto, proto, proto, later]
            I = pool.get()
            ids_check(ctx, I, "C14-roadside", "roadside objects of a prototype with id %s, other objects with id %s" % (proto, later), "object", setup, adds, asked, {"a": text("a")}, rows)
    pool.close()


# -------------------------------------------------------------------------------------------------- lane ids
def c15(ctx):
    ctx.parallel([c15_orders, c15_long, c15_many, c15_unplaced] + [decorated("Lane Road", j) for j in (c15_orders, c15_long, c15_many, c15_unplaced)])


LANES = """
def ids(sec):
    e = sec.get_element()
    return tuple([(k.tag, tuple([(l.get('id'), [w.get('a') for w in l if w.tag == 'width'][0]) for l in k])) for k in e])
def want(left, right):
    # lanes are told apart by their widths: 100, 101, ... to the left and 200, 201, ... to the right, in the order added
    out = []
    if left:
        out.append(('left', tuple([(str(i + 1), str(100 + i)) for i in range(left)])))
    out.append(('center', (('0', '7'),)))
    if right:
        out.append(('right', tuple([(str(-1 - i), str(200 + i)) for i in range(right)])))
    return tuple(out)
def found(x):
    # order within a side is not fixed
    return tuple([(side, tuple(sorted(ls))) for side, ls in x])
"""


def c15_orders(ctx):
    pool = Pool(ctx, 60)
    n = 8 if ctx.deep else 6
    for k in range(n + 1):
        for seq in itertools.product("lr", repeat=k):
            code = LANES + "sec = p.LaneSection(0, p.Lane(a=7))\n"
            c = {"l": 0, "r": 0}
            for s in seq:
                code += "sec.add_%s_lane(p.Lane(a=%d))\n" % ("left" if s == "l" else "right", (100 if s == "l" else 200) + c[s])
                c[s] += 1
            code += "x, w = found(ids(sec)), found(want(%d, %d))\n" % (c["l"], c["r"])
            I = pool.get()
            run = ctx.run(I, code, {}, "added in order %s" % "".join(seq))
            if ctx.no_raise(run, "C15-accepts", "".join(seq)):
                ctx.eq(I, "C15-orders", "added in order " + "".join(seq), run["x"], run["w"], run.pc, "the lanes written")
    ctx.sample("every interleaving of up to %d additions to the two sides" % n)
    pool.close()


def c15_long(ctx):
    pool = Pool(ctx, 10)
    n = max(12, ctx.literals() + 2 if ctx.literals() < 40 else 12)
    for l, r in ((n, 0), (0, n), (n, n)):
        I = pool.get()
        code = LANES + "sec = p.LaneSection(0, p.Lane(a=7))\nfor i in range(%d):\n    if i < %d:\n        sec.add_left_lane(p.Lane(a=100 + i))\n    if i < %d:\n        sec.add_right_lane(p.Lane(a=200 + i))\nx, w = found(ids(sec)), found(want(%d, %d))\n" % (n, l, r, l, r)
        run = ctx.run(I, code, {}, "%d left, %d right" % (l, r))
        if ctx.no_raise(run, "C15-accepts", "%d left, %d right" % (l, r)):
            ctx.eq(I, "C15-orders", "%d left, %d right" % (l, r), run["x"], run["w"], run.pc, "the lanes written")
    pool.close()


def c15_many(ctx):
    """several sections built side by side; lanes of every type, with links and marks; ids written inside a road"""
    pool = Pool(ctx, 20)
    for seq in itertools.product(("al", "ar", "bl", "br"), repeat=4 if ctx.deep else 3):
        code = LANES + "a, b = p.LaneSection(0, p.Lane(a=7)), p.LaneSection(10, p.Lane(a=7))\n"
        c = {}
        for s in seq:
            i = c.get(s, 0)
            c[s] = i + 1
            code += "%s.add_%s_lane(p.Lane(a=%d))\n" % (s[0], "left" if s[1] == "l" else "right", (100 if s[1] == "l" else 200) + i)
        code += "x, w = (found(ids(a)), found(ids(b))), (found(want(%d, %d)), found(want(%d, %d)))\n" % tuple(c.get(k, 0) for k in ("al", "ar", "bl", "br"))
        I = pool.get()
        run = ctx.run(I, code, {}, "two sections, %s" % (seq,))
        if ctx.no_raise(run, "C15-accepts", "two sections"):
            ctx.eq(I, "C15-sections", "two sections, added in order %s" % ", ".join(seq), run["x"], run["w"], run.pc, "the lanes written")
    I = ctx.interp()
    for t in ctx.members(I, I.get(ctx.cls(I, "LaneType")).d.get("__members__"), True) if False else ("none", "driving", "sidewalk", "border", "biking"):
        code = LANES + "def lane(a):\n    l = p.Lane(p.LaneType.%s, a=a)\n    l.add_link('successor', 5)\n    l.add_roadmark(p.RoadMark(p.RoadMarkType.solid, 0.2, 1))\n    return l\nsec = p.LaneSection(0, lane(7))\nsec.add_right_lane(lane(200))\nsec.add_left_lane(lane(100))\nsec.add_right_lane(lane(201))\nls = p.Lanes()\nls.add_lanesection(sec)\nls.add_lanesection(p.LaneSection(9, p.Lane()))\nx, w = found(ids(sec)), found(want(1, 2))\n" % t
        run = ctx.run(I, code, {}, "lanes of type " + t)
        if ctx.no_raise(run, "C15-accepts", t):
            ctx.eq(I, "C15-types", "lanes of type " + t, run["x"], run["w"], run.pc, "the lanes written")
    # a lane that had a place elsewhere gets the id of its new place
    for was in ("left 1", "left 2", "right 1", "right 3", "center", "left 1, right 1"):
        for side, n in (("left", 1), ("left", 3), ("right", 1), ("right", 2), ("center", 0)):
            code = LANES + "l = p.Lane(a=%s)\n" % (7 if side == "center" else (99 if side == "left" else 199) + n)
            for w in was.split(", "):
                if w == "center":
                    code += "old = p.LaneSection(1, l)\nold.add_left_lane(p.Lane())\n"
                else:
                    at, k = w.split()
                    code += "old = p.LaneSection(1, p.Lane())\n" + "old.add_%s_lane(p.Lane())\n" % at * (int(k) - 1) + "old.add_%s_lane(l)\nold.get_element()\n" % at
            if side == "center":
                code += "sec = p.LaneSection(0, l)\nsec.add_left_lane(p.Lane(a=100))\n"
            else:
                code += "sec = p.LaneSection(0, p.Lane(a=7))\n" + "".join("sec.add_%s_lane(%s)\n" % (side, "l" if i == n - 1 else "p.Lane(a=%d)" % ((100 if side == "left" else 200) + i)) for i in range(n))
            code += "x, w = found(ids(sec)), found(want(%d, %d))\n" % (1 if side == "center" else n if side == "left" else 0, n if side == "right" else 0)
            label = "a lane that was %s elsewhere, now %s" % (was, "%s %d" % (side, n) if n else "the centre lane")
            run = ctx.run(I, code, {}, label)
            if ctx.no_raise(run, "C15-accepts", label):
                ctx.eq(I, "C15-reused", label, run["x"], run["w"], run.pc, "the lanes written")
    # a lane added again takes the next place; the others have the ids of theirs
    for side, sg in (("left", 1), ("right", -1)):
        for seq in itertools.product("ab", repeat=4):
            code = "a, b, o = p.Lane(), p.Lane(), p.Lane()\nsec = p.LaneSection(0, p.Lane())\n" + "".join("sec.add_%s_lane(%s)\n" % (side, q) for q in seq) + "sec.add_%s_lane(o)\nx = o.get_attributes()['id']\n" % side
            label = "%s lanes %s and another" % (side, ", ".join(seq))
            run = ctx.run(I, code, {}, label)
            if ctx.no_raise(run, "C15-accepts", label):
                ctx.eq(I, "C15-again", label, run["x"], str(5 * sg), run.pc, "the id of the fifth lane")
    # ids survive writing and adjusting
    code = LANES + "sec = p.LaneSection(0, p.Lane(a=7))\nsec.add_left_lane(p.Lane(a=100))\nsec.add_right_lane(p.Lane(a=200))\nx0 = found(ids(sec))\nsec.add_left_lane(p.Lane(a=101))\nls = p.Lanes()\nls.add_lanesection(sec)\npv = p.PlanView()\npv.add_geometry(p.Line(5))\nr = p.Road(1, pv, ls)\nod = p.OpenDrive('n')\nod.add_road(r)\nod.adjust_roads_and_lanes()\nod.get_element()\nsec.add_right_lane(p.Lane(a=201))\nx, w = found(ids(sec)), found(want(2, 2))\n"
    run = ctx.run(I, code, {}, "written in between")
    if ctx.no_raise(run, "C15-accepts", "written in between"):
        ctx.eq(I, "C15-orders", "written in between", run["x"], run["w"], run.pc, "the lanes written")
    ctx.done(I)
    pool.close()


def c15_unplaced(ctx):
    I = ctx.interp()
    b = nums("w")
    for make in ("p.Lane()", "p.Lane(a=w)", "p.Lane(p.LaneType.none)", "p.standard_lane()", "p.standard_lane(w, p.STD_ROADMARK_SOLID)"):
        for what, do in (("written", "l.get_element()"), ("written as the second lane after a placed one", "sec = p.LaneSection(0, p.Lane())\nsec.add_left_lane(p.Lane())\nsec.get_element()\nl.get_element()")):
            run = ctx.run(I, "l = %s\n%s\n" % (make, do), b, make)
            ctx.raises(I, run, "C15-unplaced", "%s, never put into a section, %s" % (make, what), "ValueError", what="writing")
    # whatever else happened to the lane
    acts = ["l.add_link('successor', 1)", "l.add_link('predecessor', w)", "l.add_roadmark(p.STD_ROADMARK_SOLID)", "l.add_roadmark(p.RoadMark(p.RoadMarkType.curb, w))", "l.get_attributes()", "l.level = 1", "l.soffset = w"]
    tried = "try:\n    l.get_element()\nexcept ValueError:\n    pass\n"
    for make in ("p.Lane()", "p.Lane(p.LaneType.shoulder, 3, w, w, w, w)", "p.standard_lane()"):
        for n in (1, 2, len(acts)):
            for some in itertools.permutations(acts, n) if n < 3 else [acts]:
                do = "\n".join("try:\n    %s\nexcept ValueError:\n    pass" % a for a in some) + "\n"
                run = ctx.run(I, "l = %s\n%s%sl.get_element()\n" % (make, do, tried if n > 1 else ""), b, make)
                ctx.raises(I, run, "C15-unplaced", "%s, never put into a section, after %s" % (make, "; ".join(some)), "ValueError", what="writing")
    ctx.done(I)


# -------------------------------------------------------------------------------------------------- connection ids
CONN = """
def ids(j):
    return [c.get('id') for c in j.get_element()]
def con(i, n):
    return p.Connection(n, 90, p.ContactPoint.start, id=i) if i is not None else p.Connection(n, 90, p.ContactPoint.start)
def ok(got, asked, earlier):
    return got not in earlier if asked is None else got == str(asked)
"""


def c16(ctx):
    n = 5 if ctx.deep else 4
    pats = [q for k in range(1, n + 1) for q in itertools.product((0, 1), repeat=k)]
    ctx.parallel([lambda ctx, part=pats[i::8]: c16_open(ctx, part) for i in range(8)] + [c16_values, c16_other] + [decorated("Connection", j) for j in (c16_values, c16_other)])
    ctx.sample("all histories of up to %d connections with ids given (any text) or omitted" % n)


def conn_check(ctx, I, label, asked, binds):
    code = CONN + "j = p.Junction('j', 1)\n"
    for i, a in enumerate(asked):
        code += "j.add_connection(con(%s, %d))\ne%d = ids(j)[%d]\nk%d = ok(e%d, %s, [%s])\n" % (a, i, i, i, i, i, a, ", ".join("e%d" % q for q in range(i)))
    code += "now = tuple(ids(j))\nthen = (%s,)\nroads = tuple([c.get('incomingRoad') for c in j.get_element()])\n" % ", ".join("e%d" % i for i in range(len(asked)))
    run = ctx.run(I, code, binds, label)
    if not ctx.no_raise(run, "C16-accepts", label):
        return
    for i, a in enumerate(asked):
        ctx.eq(I, "C16-ids", "%s: connection %d" % (label, i + 1), run["k%d" % i], True, run.pc, "the given id is kept, another is new:" if a != "None" else "the id is new:")
    ctx.eq(I, "C16-stable", label, run["now"], run["then"], run.pc, "the ids at the end")
    ctx.eq(I, "C16-stable", label, run["roads"], Tup([str(i) for i in range(len(asked))]), run.pc, "the connections in order")


def c16_open(ctx, patterns):
    names = "abcde"
    for pat in patterns:
        asked = [names[i] if x else "None" for i, x in enumerate(pat)]
        for kind in ("text", "number"):
            I = ctx.interp()
            conn_check(ctx, I, "connections with ids %s (%ss)" % (", ".join(asked), kind), asked, {n: text(n) if kind == "text" else T.nsym(n) for n in names})
            ctx.done(I)


def c16_values(ctx):
    pool = Pool(ctx, 60)
    for k in (3, 4) if ctx.deep else (3,):
        for asked in itertools.product(("None", "0", "1", "'0'", "'1'", "2", "'x'"), repeat=k):
            conn_check(ctx, pool.get(), "connections with ids %s" % ", ".join(asked), list(asked), {})
    # many
    conn_check(ctx, pool.get(), "twelve connections", ["None"] * 12, {})
    n = max(12, min(ctx.literals(), 30) + 2)
    for high in (0, 1, n - 2, n - 1, n, n + 1):
        for place in (0, 1, n // 2, n - 1):
            for form in ("%d", "'%d'"):
                asked = ["None"] * n
                asked.insert(place, form % high)
                conn_check(ctx, pool.get(), "%d connections without ids and, at place %d, one with the id %s" % (n, place + 1, form % high), asked, {}) if high >= place else None
    conn_check(ctx, pool.get(), "every other id taken downwards", [str(i) for i in range(n, 0, -2)] + ["None"] * n, {})
    conn_check(ctx, pool.get(), "three explicit before nine", ["0", "3", "'1'"] + ["None"] * 9, {})
    pool.close()


def c16_other(ctx):
    """two junctions; connections with links; a connection whose attributes equal those of another"""
    I = ctx.interp()
    for seq in itertools.product("ab", repeat=4):
        code = CONN + "a, b = p.Junction('a', 1), p.Junction('b', 1)\n"
        for i, j in enumerate(seq):
            code += "c = con(None, %d)\nc.add_lanelink(1, 1)\n%s.add_connection(c)\n" % (i, j)
        code += "ua, ub, na, nb = len(set(ids(a))), len(set(ids(b))), len(ids(a)), len(ids(b))\n"
        run = ctx.run(I, code, {}, "two junctions")
        label = "two junctions, added in order %s" % "".join(seq)
        if ctx.no_raise(run, "C16-accepts", label):
            ctx.eq(I, "C16-ids", label, Tup([run["ua"], run["ub"], run["na"], run["nb"]]), Tup([seq.count("a"), seq.count("b")] * 2), run.pc, "numbers of different ids and of connections")
    code = CONN + "j = p.Junction('j', 1)\nfor i in range(3):\n    c = p.Connection(1, 2, p.ContactPoint.end)\n    c.add_lanelink(-1, -1)\n    j.add_connection(c)\nn, u = len(ids(j)), len(set(ids(j)))\nx0 = tuple(ids(j))\nj.get_element()\nj.get_attributes()\nx1 = tuple(ids(j))\n"
    run = ctx.run(I, code, {}, "equal connections")
    if ctx.no_raise(run, "C16-accepts", "equal connections"):
        ctx.eq(I, "C16-ids", "three equal connections", Tup([run["n"], run["u"]]), Tup([3, 3]), run.pc, "numbers of connections and of different ids")
        ctx.eq(I, "C16-stable", "three equal connections", run["x1"], run["x0"], run.pc, "ids after writing")
    # connections made by create_junction get ids that the ones added by hand do not have
    code = CONN + "a, b = p.create_straight_road(1), p.create_straight_road(2)\njs = []\nfor k in range(2):\n    t = p.create_straight_road(10 + k, junction=5)\n    t.add_predecessor(p.ElementType.road, 1, p.ContactPoint.end)\n    t.add_successor(p.ElementType.road, 2, p.ContactPoint.start)\n    js.append(t)\nj = p.create_junction(js, 5, [a, b])\nj.add_connection(con(None, 1))\nn, u = len(ids(j)), len(set(ids(j)))\n"
    run = ctx.run(I, code, {}, "create_junction")
    if ctx.no_raise(run, "C16-accepts", "create_junction"):
        ctx.eq(I, "C16-ids", "a connection added to a created junction", Tup([run["n"], run["u"]]), Tup([5, 5]), run.pc, "numbers of connections and of different ids")
    ctx.done(I)


# -------------------------------------------------------------------------------------------------- lane links of sections
LINK = """
def section(s, l, r):
    sec = p.LaneSection(s, p.Lane())
    for i in range(l):
        sec.add_left_lane(p.Lane(a=3))
    for i in range(r):
        sec.add_right_lane(p.Lane(a=3))
    return sec
def linked(lane):
    ls = [l for k in lane.get_element() if k.tag == 'link' for l in k]
    return (tuple([l.get('id') for l in ls if l.tag == 'predecessor']), tuple([l.get('id') for l in ls if l.tag == 'successor']), len(ls))
def starts(lanes):
    return tuple([e.get('s') for e in lanes.get_element() if e.tag == 'laneSection'])
"""


def c17(ctx):
    """two and three sections; pairs registered with one or several linkers; linkers given with any of the sections, singly or as a list"""
    jobs = [lambda ctx, m=m: c17_uses(ctx, m) for m in ("one", "two")] + [c17_pairs, c17_later]
    ctx.parallel(jobs + [decorated("Lane", j) for j in jobs])


def c17_check(ctx, I, label, code, lanes, want, starts):
    """lanes: (name, section expr); want: name -> (preds, succs)"""
    code = LINK + code
    for i, (n, e) in enumerate(lanes):
        code += "x%d = linked(%s)\n" % (i, e)
    code += "st = starts(ls)\n"
    run = ctx.run(I, code, {}, label)
    if not ctx.no_raise(run, "C17-accepts", label):
        return
    for i, (n, e) in enumerate(lanes):
        ps, ss = want.get(n, ([], []))
        ctx.eq(I, "C17-links", "%s: lane %s (predecessors, successors, links)" % (label, n), run["x%d" % i], Tup([Tup([str(q) for q in ps]), Tup([str(q) for q in ss]), len(ps) + len(ss)]), run.pc, "the links written")
    ctx.eq(I, "C17-sections", label, run["st"], Tup([str(s) for s in starts]), run.pc, "the sections in order")


def lane_at(k, i):
    return "s%d.%slanes[%d]" % (k, "left" if i > 0 else "right", abs(i) - 1) if i else "s%d.centerlane" % k


def all_lanes(n):
    return [("s%d%+d" % (k, i), lane_at(k, i)) for k in range(n) for i in (2, 1, 0, -1, -2)]


def c17_uses(ctx, mode):
    pool = Pool(ctx, 30)
    n = 3
    setup = "".join("s%d = section(%d, 2, 2)\n" % (k, 10 * k) for k in range(n)) + "ls = p.Lanes()\n"
    reg = {"a": [], "b": []}
    want = {}
    # pairs between sections 0-1 and 1-2; with two linkers one takes each side
    k = 0
    for i in (1, 2, 0, -1, -2):
        for a in range(n - 1):
            w = "a" if mode == "one" or i > 0 else "b"
            reg[w].append("%s.add_link(%s, %s)" % (w, lane_at(a, i), lane_at(a + 1, i)))
            want.setdefault("s%d%+d" % (a, i), ([], []))[1].append(i)
            want.setdefault("s%d%+d" % (a + 1, i), ([], []))[0].append(i)
    setup += "a, b = p.LaneLinker(), p.LaneLinker()\n" + "".join(q + "\n" for w in "ab" for q in reg[w])
    forms = ["", "a", "[a]", "[a, a]"] if mode == "one" else ["", "a", "b", "[a, b]", "[b, a, b]"]
    for use in itertools.product(forms, repeat=n):
        text = "".join(use)
        if "a" not in text or (mode == "two" and "b" not in text):
            continue
        code = setup + "".join("ls.add_lanesection(s%d%s)\n" % (k, ", " + u if u else "") for k, u in enumerate(use))
        c17_check(ctx, pool.get(), "sections added with %s" % " | ".join(u or "nothing" for u in use), code, all_lanes(n), want, [0, 10, 20])
    # nothing registered, empty lists
    for use in itertools.product(("", "[]", "p.LaneLinker()", "None"), repeat=2):
        code = setup + "".join("ls.add_lanesection(s%d%s)\n" % (k, ", " + u if u else "") for k, u in enumerate(use))
        c17_check(ctx, pool.get(), "sections added with %s" % " | ".join(u or "nothing" for u in use), code, all_lanes(2), {}, [0, 10])
    # by keyword
    code = setup + "ls.add_lanesection(s0, lanelinks=a)\nls.add_lanesection(s1, lanelinks=[a, b])\nls.add_lanesection(lanesection=s2, lanelinks=b)\n"
    c17_check(ctx, pool.get(), "linkers by keyword", code, all_lanes(n), want, [0, 10, 20])
    pool.close()


def c17_pairs(ctx):
    """which lanes are paired: crossing, merging and splitting lanes"""
    pool = Pool(ctx, 30)
    sides = (1, 2, 0, -1, -2)
    pairs = list(itertools.product(sides, repeat=2))
    sets = [[q] for q in pairs] + [[(1, 2), (2, 1)], [(1, 1), (1, 2)], [(1, 1), (2, 1)], [(-1, -1), (-2, -2), (1, 1), (2, 2)], [(-2, -1), (-1, -2), (2, 2)], [(1, -1), (-1, 1)], [(0, 0), (1, 1), (-1, -1)], [(1, 0), (0, -1)]]
    for ps in sets:
        code = "s0, s1 = section(0, 2, 2), section(10, 2, 2)\nls = p.Lanes()\na = p.LaneLinker()\n"
        want = {}
        for x, y in ps:
            code += "a.add_link(%s, %s)\n" % (lane_at(0, x), lane_at(1, y))
            want.setdefault("s0%+d" % x, ([], []))[1].append(y)
            want.setdefault("s1%+d" % y, ([], []))[0].append(x)
        for use in ("ls.add_lanesection(s0, a)\nls.add_lanesection(s1, a)\n", "ls.add_lanesection(s0, [a])\nls.add_lanesection(s1)\n", "ls.add_lanesection(s0)\nls.add_lanesection(s1, [a, a])\n"):
            c17_check(ctx, pool.get(), "pairs %s" % ps, code + use, all_lanes(2), want, [0, 10])
    # many linkers; a lane registered with itself; the same pair with two linkers is two registrations of different lanes only
    n = max(6, min(ctx.literals(), 20) + 2)
    for many, use in (("a list of linkers", "ls.add_lanesection(s0)\nls.add_lanesection(s1, ks)\n"), ("a list of linkers given twice", "ls.add_lanesection(s0, ks)\nls.add_lanesection(s1, ks)\n"), ("one linker", "k = p.LaneLinker()\nfor q in ks:\n    k.links = k.links + q.links\nls.add_lanesection(s0)\nls.add_lanesection(s1, k)\n")):
        code = "s0, s1 = section(0, %d, 0), section(10, %d, 0)\nls = p.Lanes()\nks = []\nfor i in range(%d):\n    k = p.LaneLinker()\n    k.add_link(s0.leftlanes[i], s1.leftlanes[i])\n    ks.append(k)\n" % (n, n, n)
        if many == "one linker":
            code = code.replace("k = p.LaneLinker()\n    k.add_link", "k.add_link").replace("ks = []\n", "ks = []\nk = p.LaneLinker()\n").replace("    ks.append(k)\n", "")
            use = "ls.add_lanesection(s0)\nls.add_lanesection(s1, k)\n"
        c17_check(ctx, pool.get(), "%s for %d pairs" % (many, n), code + use, [("s%d+%d" % (k, i), lane_at(k, i)) for k in (0, 1) for i in range(1, n + 1)], {"s%d+%d" % (k, i): ([i], []) if k else ([], [i]) for k in (0, 1) for i in range(1, n + 1)}, [0, 10])
    for i in (1, -2, 0):
        for use in ("ls.add_lanesection(s0, a)\nls.add_lanesection(s1, a)\n", "ls.add_lanesection(s0)\nls.add_lanesection(s1, [a])\n"):
            c17_check(ctx, pool.get(), "lane %d registered with itself" % i, "s0, s1 = section(0, 2, 2), section(10, 2, 2)\nls = p.Lanes()\na = p.LaneLinker()\na.add_link(%s, %s)\n" % (lane_at(0, i), lane_at(0, i)) + use, all_lanes(2), {"s0%+d" % i: ([i], [i])}, [0, 10])
    # named arguments, sections of other roads, section added twice to different containers
    code = "s0, s1 = section(0, 2, 2), section(10, 2, 2)\nls = p.Lanes()\na = p.LaneLinker()\na.add_link(predlane=s0.leftlanes[0], succlane=s1.rightlanes[1])\na.add_link(succlane=s1.leftlanes[0], predlane=s0.rightlanes[0], connecting_road=5)\nls.add_lanesection(s0, a)\nother = p.Lanes()\nother.add_lanesection(s1, a)\nls.add_lanesection(s1, a)\n"
    c17_check(ctx, pool.get(), "two containers", code, all_lanes(2), {"s0+1": ([], [-2]), "s1-2": ([1], []), "s0-1": ([], [1]), "s1+1": ([-1], [])}, [0, 10])
    pool.close()


def c17_later(ctx):
    """pairs registered after the linker was first used"""
    pool = Pool(ctx, 30)
    code = "s0, s1, s2 = section(0, 2, 2), section(10, 2, 2), section(20, 2, 2)\nls = p.Lanes()\na = p.LaneLinker()\na.add_link(s0.leftlanes[0], s1.leftlanes[0])\nls.add_lanesection(s0%s)\na.add_link(s1.leftlanes[0], s2.leftlanes[1])\na.add_link(s0.rightlanes[0], s1.rightlanes[1])\nls.add_lanesection(s1%s)\nls.add_lanesection(s2%s)\n"
    want = {"s0+1": ([], [1]), "s1+1": ([1], [2]), "s2+2": ([1], []), "s0-1": ([], [-2]), "s1-2": ([-1], [])}
    for use in itertools.product(("", ", a", ", [a]"), repeat=3):
        if not use[1] and not use[2]:
            continue
        c17_check(ctx, pool.get(), "pairs registered between additions, used%s" % "".join(u or ", not" for u in use), code % use, all_lanes(3), want, [0, 10, 20])
    # two linkers, either of which gets another pair after it was used
    code = "s0, s1, s2 = section(0, 2, 2), section(10, 2, 2), section(20, 2, 2)\nls = p.Lanes()\na, b = p.LaneLinker(), p.LaneLinker()\na.add_link(s0.leftlanes[0], s1.leftlanes[0])\nb.add_link(s0.rightlanes[0], s1.rightlanes[0])\nls.add_lanesection(s0%s)\n%s.add_link(s1.leftlanes[0], s2.leftlanes[1])\n%s.add_link(s0.rightlanes[1], s1.rightlanes[1])\nls.add_lanesection(s1%s)\nls.add_lanesection(s2%s)\n"
    want = {"s0+1": ([], [1]), "s1+1": ([1], [2]), "s2+2": ([1], []), "s0-1": ([], [-1]), "s1-1": ([-1], []), "s0-2": ([], [-2]), "s1-2": ([-2], [])}
    for u0, u1, u2 in itertools.product(("", ", a", ", b", ", [a, b]", ", [b, a]"), ("", ", [a, b]", ", [b, a]"), ("", ", [a, b]", ", [b, a]")):
        if not u1 and not u2:
            continue
        for x, y in itertools.product("ab", repeat=2):
            c17_check(ctx, pool.get(), "two linkers used%s, then more pairs in %s and %s" % ("".join(u or ", not" for u in (u0, u1, u2)), x, y), code % (u0, x, y, u1, u2), all_lanes(3), want, [0, 10, 20])
    # two roads with their own linkers
    code = "s0, s1 = section(0, 2, 2), section(10, 2, 2)\nt0, t1 = section(0, 1, 1), section(10, 1, 1)\nls, lt = p.Lanes(), p.Lanes()\na, b = p.LaneLinker(), p.LaneLinker()\na.add_link(s0.leftlanes[0], s1.leftlanes[0])\nb.add_link(t0.leftlanes[0], t1.leftlanes[0])\nlt.add_lanesection(t0, b)\nls.add_lanesection(s0, a)\nlt.add_lanesection(t1, b)\nls.add_lanesection(s1, a)\n"
    c17_check(ctx, pool.get(), "two roads", code, all_lanes(2) + [("t0", "t0.leftlanes[0]"), ("t1", "t1.leftlanes[0]")], {"s0+1": ([], [1]), "s1+1": ([1], []), "t0": ([], [1]), "t1": ([1], [])}, [0, 10])
    pool.close()


# -------------------------------------------------------------------------------------------------- the roads of a network
ROADS = CATCH + """
def road(i, n):
    # roads are told apart by their names
    pv = p.PlanView(0, 0, 0)
    pv.add_geometry(p.Line(10))
    ls = p.Lanes()
    ls.add_lanesection(p.LaneSection(0, p.Lane()))
    return p.Road(i, pv, ls, name=n)
def inside(od):
    return [(e.get('name'), e.get('id')) for e in od.get_element() if e.tag == 'road']
"""


def c18(ctx):
    n = 4 if ctx.deep else 3
    ctx.parallel([lambda ctx, k=k: c18_open(ctx, k) for k in range(1, n + 1)] + [c18_values, c18_again, c18_links] + [decorated("Road Lane", j) for j in (c18_values, c18_again, c18_links)])
    ctx.sample("all histories of up to %d roads with unbounded ids" % n)


def c18_check(ctx, I, label, ids, binds):
    code = ROADS + "od = p.OpenDrive('n')\n" + "".join("r%d = road(%s, 'road %d')\n" % (i, a, i) for i, a in enumerate(ids))
    # a road is refused exactly when a different road with the same id is in the network; what is inside stays
    code += "inn = []\nok = True\n"
    for i, a in enumerate(ids):
        code += "free = str(%s) not in [q for n, q in inn]\nout = attempt(od.add_road, r%d)\nif free:\n    inn = inn + [('road %d', str(%s))]\n    ok = ok and out == 'accepted'\nelse:\n    ok = ok and out == 'ValueError'\n" % (a, i, i, a)
    code += "od.adjust_roads_and_lanes()\nx, w = tuple(inside(od)), tuple(inn)\n"
    run = ctx.run(I, code, binds, label)
    if not ctx.no_raise(run, "C18-accepts", label):
        return
    ctx.eq(I, "C18-refused", label, run["ok"], True, run.pc, "a road with a new id is accepted and another road with a taken one refused with a ValueError:")
    ctx.eq(I, "C18-inside", label, run["x"], run["w"], run.pc, "the roads written (name, id), in the order added,")


def c18_open(ctx, k):
    names = "abcd"
    for kind in ("text", "number"):
        I = ctx.interp()
        c18_check(ctx, I, "%d roads with any %ss as ids" % (k, kind), list(names[:k]), {n: text(n) if kind == "text" else T.nsym(n) for n in names})
        ctx.done(I)


def c18_values(ctx):
    pool = Pool(ctx, 60)
    for ids in itertools.product(("0", "1", "'1'", "'x'", "'0'", "-1", "''"), repeat=3):
        c18_check(ctx, pool.get(), "roads with ids %s" % ", ".join(ids), list(ids), {})
    c18_check(ctx, pool.get(), "twelve roads", [str(i) for i in range(12)], {})
    c18_check(ctx, pool.get(), "twelve roads, mixed", [str(i) if i % 2 else "'%d'" % i for i in range(12)], {})
    pool.close()


def c18_again(ctx):
    """the same road again; refused roads do not stay; two networks"""
    I = ctx.interp()
    for code, want, label in (
        ("a, b = road(1, 'a'), road(2, 'b')\nod.add_road(a)\nod.add_road(b)\nod.add_road(a)\n", (("a", "1"), ("b", "2")), "the same road added again"),
        ("a, b = road(1, 'a'), road('1', 'b')\nod.add_road(a)\nattempt(od.add_road, b)\nattempt(od.add_road, b)\nod.add_road(road(2, 'c'))\n", (("a", "1"), ("c", "2")), "a refused road"),
        ("other = p.OpenDrive('m')\na, b = road(1, 'a'), road(1, 'b')\nother.add_road(b)\nod.add_road(a)\nod.add_road(road(2, 'c'))\nother.add_road(road(3, 'd'))\n", (("a", "1"), ("c", "2")), "two networks"),
        ("od.add_junction(p.Junction('j', 1))\nod.add_road(road(1, 'a'))\nod.add_road(road(2, 'b'))\n", (("a", "1"), ("b", "2")), "a junction with the id of a road"),
        ("od.add_road(road(1, 'a'))\nod.adjust_roads_and_lanes()\nod.get_element()\nod.add_road(road(2, 'b'))\nod.adjust_startpoints()\n", (("a", "1"), ("b", "2")), "added after writing"),
        ("a = road(1, 'a')\nod.add_road(a)\nod.adjust_roads_and_lanes()\nod.add_road(a)\nod.adjust_roads_and_lanes()\n", (("a", "1"),), "the same road after adjusting"),
    ):
        run = ctx.run(I, ROADS + "od = p.OpenDrive('n')\n" + code + "x = tuple(inside(od))\n", {}, label)
        if ctx.no_raise(run, "C18-accepts", label):
            ctx.eq(I, "C18-inside", label, run["x"], Tup([Tup(q) for q in want]), run.pc, "the roads written (name, id)")
    ctx.done(I)


def c18_links(ctx):
    """found under its own id, whatever the type of the id: the neighbour is positioned from it"""
    I = ctx.interp()
    pre = ROADS + "def free(i, n):\n    pv = p.PlanView()\n    pv.add_geometry(p.Line(10))\n    ls = p.Lanes()\n    ls.add_lanesection(p.LaneSection(0, p.Lane()))\n    return p.Road(i, pv, ls, name=n)\nod = p.OpenDrive('n')\n"
    from .lanes import other

    for ra, rb in itertools.product(("1", "'1'", "'a'", "0"), ("2", "'2'", "'b'", "10")):
        for la in (ra, other(ra)):
            for order in ("ab", "ba"):
                code = pre + "a, b = road(%s, 'a'), free(%s, 'b')\nb.add_predecessor(p.ElementType.road, %s, p.ContactPoint.end)\n" % (ra, rb, la) + "".join("od.add_road(%s)\n" % q for q in order)
                code += "od.adjust_roads_and_lanes()\nx = tuple(inside(od))\ny = b.planview.get_start_point()\n"
                label = "road %s found by road %s as %s, added %s" % (ra, rb, la, order)
                run = ctx.run(I, code, {}, label)
                if ctx.no_raise(run, "C18-found", label):
                    txt = {"a": ("a", ra.strip("'")), "b": ("b", rb.strip("'"))}
                    ctx.eq(I, "C18-inside", label, run["x"], Tup([Tup(txt[q]) for q in order]), run.pc, "the roads written (name, id)")
                    ctx.eq(I, "C18-found", label, run["y"], Tup([10, 0, 0]), run.pc, "the position of the neighbour")
    ctx.done(I)


# -------------------------------------------------------------------------------------------------- specifications of geometry
def c19(ctx):
    """decision tables: every subset of the optional arguments, given in every way, with unbounded values and with zero"""
    I = ctx.interp()
    ctx.current = "specifications"
    b = nums("x", "y", "h", "au", "bu", "cu", "du", "av", "bv", "cv", "dv", c0="+", d="+", L="+", an="nz", ra="+", c="nz")

    def table(rule, make, opts, expected, label):
        names = list(opts)
        for given in itertools.product(*[range(len(opts[n]) + 2) for n in names]):
            # 0: left out, 1: None, 2..: a value
            args = ", ".join("%s=%s" % (n, "None" if g == 1 else opts[n][g - 2]) for n, g in zip(names, given) if g)
            have = [n for n, g in zip(names, given) if g > 1]
            vals = {n: opts[n][g - 2] for n, g in zip(names, given) if g > 1}
            call = make % (", " + args if args else "")
            call = call.replace("(, ", "(")
            run = ctx.run(I, CATCH + "def make():\n    return %s\nout = attempt(make)\n" % call, b, call)
            want = expected(have, vals)
            if ctx.no_raise(run, rule, call):
                if isinstance(want, str):
                    ctx.eq(I, rule, call, run["out"], want, run.pc, "the outcome")
                else:
                    from ..terms import leaves

                    bad = [(c, v) for c, v in leaves(T.simp(run["out"], run.pc), run.pc) if v not in want and instance(c)]
                    if bad:
                        ctx.fail(rule, call, "the outcome is %s, expected %s" % (T.show(bad[0][1]), " or ".join(want)))
                    else:
                        ctx.ok(rule)

    few, many = "NotEnoughInputArguments", "ToManyOptionalArguments"
    table("C19-spiral", "p.Spiral(c0, c0 + d%s)", {"length": ["L"], "angle": ["an", "0"], "cdot": ["ra"]}, lambda have, v: few if not have else many if len(have) > 1 else "accepted", "spiral")
    # a spiral that starts or ends straight
    table("C19-spiral", "p.Spiral(0, c0%s)", {"length": ["L"], "angle": ["an"], "cdot": ["ra"]}, lambda have, v: few if not have else many if len(have) > 1 else "accepted", "spiral")
    table("C19-spiral", "p.Spiral(c0, 0%s)", {"length": ["L"], "angle": ["an"], "cdot": ["-ra"]}, lambda have, v: few if not have else many if len(have) > 1 else "accepted", "spiral")
    table("C19-arc", "p.Arc(c%s)", {"length": ["L"], "angle": ["an", "0"]}, lambda have, v: few if not have else many if len(have) > 1 else "accepted", "arc")
    for zero in ("0", "0.0", "-0.0", "c - c"):
        table("C19-arc", "p.Arc(" + zero + "%s)", {"length": ["L"], "angle": ["an"]}, lambda have, v: ("ValueError",) if len(have) == 1 else ("ValueError", few) if not have else ("ValueError", many), "arc")
    poly = "p.ParamPoly3(au, bu, cu, du, av, bv, cv, dv%s)"
    table("C19-polynomial", poly, {"length": ["L"]}, lambda have, v: "accepted", "polynomial")
    for pr in ("'arcLength'",):
        table("C19-polynomial", "p.ParamPoly3(au, bu, cu, du, av, bv, cv, dv, prange=" + pr + "%s)", {"length": ["L"]}, lambda have, v: "accepted" if have else "ValueError", "polynomial")
        table("C19-polynomial", "p.ParamPoly3(au, bu, cu, du, av, bv, cv, dv, " + pr + "%s)", {"length": ["L"]}, lambda have, v: "accepted" if have else "ValueError", "polynomial")
    table("C19-polynomial", "p.ParamPoly3(au, bu, cu, du, av, bv, cv, dv, prange='normalized'%s)", {"length": ["L"]}, lambda have, v: "accepted", "polynomial")
    table("C19-planview", "p.PlanView(%s)", {"x_start": ["x", "0"], "y_start": ["y", "0"], "h_start": ["h", "0"]}, lambda have, v: "accepted" if len(have) in (0, 3) else few, "plan view")
    # positional forms
    for call, want in (
        ("p.Spiral(c0, c0 + d, L)", "accepted"), ("p.Spiral(c0, c0 + d, None, an)", "accepted"), ("p.Spiral(c0, c0 + d, None, None, ra)", "accepted"), ("p.Spiral(c0, c0 + d, L, an)", many), ("p.Spiral(c0, c0 + d, L, None, ra)", many), ("p.Spiral(c0, c0 + d, None, an, ra)", many), ("p.Spiral(c0, c0 + d, L, an, ra)", many),
        ("p.Arc(c, L)", "accepted"), ("p.Arc(c, None, an)", "accepted"), ("p.Arc(c, L, an)", many), ("p.Arc(curvature=c)", few), ("p.Line(L)", "accepted"),
        ("p.PlanView(x, y, h)", "accepted"), ("p.PlanView(0, 0, 0)", "accepted"), ("p.PlanView(0.0, y, 0)", "accepted"), ("p.PlanView(x)", few), ("p.PlanView(x, y)", few), ("p.PlanView(0, 0)", few), ("p.PlanView(None, y, h)", few), ("p.PlanView(0, None, 0)", few),
        # the same values once more: nothing may be zero by accident
        ("p.Spiral(curvstart=c0, curvend=c0 + d, length=L)", "accepted"), ("p.Spiral(-c0, -c0 - d, angle=an)", "accepted"), ("p.Spiral(c0, c0, length=L)", "accepted"), ("p.Spiral(c0, c0, angle=an)", "accepted"), ("p.Spiral(0, 0, length=L)", "accepted"),
    ):
        run = ctx.run(I, CATCH + "def make():\n    return %s\nout = attempt(make)\n" % call, b, call)
        if ctx.no_raise(run, "C19-forms", call):
            ctx.eq(I, "C19-forms", call, run["out"], want, run.pc, "the outcome")
    # generators pass specifications on
    ctx.done(I)


# -------------------------------------------------------------------------------------------------- links of a road
ROAD = CATCH + """
def lanes():
    ls = p.Lanes()
    sec = p.LaneSection(0, p.Lane())
    sec.add_left_lane(p.Lane(a=3))
    sec.add_right_lane(p.Lane(a=3))
    ls.add_lanesection(sec)
    return ls
def fresh():
    pv = p.PlanView()
    pv.add_geometry(p.Line(100))
    return p.Road(1, pv, lanes())
r = fresh()
o = p.Object(1, 2, p.ObjectType.pole)
RD, JN, S, E_ = p.ElementType.road, p.ElementType.junction, p.ContactPoint.start, p.ContactPoint.end
same, opposite = p.Direction.same, p.Direction.opposite
"""

CALLS = {
    "successor": ["r.add_successor(RD, a, S)", "r.add_successor(JN, 0)", "r.add_successor(RD, '', E_, lane_offset=k)"],
    "predecessor": ["r.add_predecessor(RD, a, E_)", "r.add_predecessor(JN, '0')", "r.add_predecessor(RD, 0, S, lane_offset=k)"],
    "neighbor": ["r.add_neighbor(RD, a, same)", "r.add_neighbor(RD, 0, opposite)"],
    "neighbor without direction": ["r.add_neighbor(RD, a, None)", "r.add_neighbor(RD, 0, direction=None)"],
    "roadside": ["r.add_object_roadside(o, 5)", "r.add_object_roadside(o, 0, 1, 2, p.RoadSide.left)"],
    "adjust": ["r.planview.adjust_geometries()", "net(r)"],
    "other": ["r.add_object(p.Object(1, 2))", "r.add_signal(p.Signal(1, 2, 'se', 'x'))"],
}


def c20(ctx):
    n = 5 if ctx.deep else 4
    kinds = list(CALLS)
    seqs = []
    for k in range(1, n + 1):
        for seq in itertools.product(kinds, repeat=k):
            # adjusting twice or other additions twice teach nothing new
            if seq.count("adjust") > 1 or seq.count("other") > 1 or (k == n and "other" in seq):
                continue
            seqs.append(seq)
    ctx.parallel([lambda ctx, part=seqs[i::16]: c20_part(ctx, part) for i in range(16)] + [c20_after, decorated("Lane Object Signal", c20_after)] + [decorated("Lane Object Signal", lambda ctx, part=seqs[i::32]: c20_part(ctx, part)) for i in range(0, 32, 4)])
    ctx.sample("%d histories of up to %d calls on one road" % (len(seqs), n))


def c20_part(ctx, seqs):
    pool = Pool(ctx, 30)
    b = dict(nums("k"), a=text("a"), **HOOKS)
    for num, seq in enumerate(seqs):
        code = ROAD + "def net(r):\n    od = p.OpenDrive('n')\n    q = fresh()\n    od.add_road(r)\n    od.adjust_startpoints()\n"
        have = {"successor": 0, "predecessor": 0, "neighbor": 0}
        adjusted, plan = False, []
        for i, s in enumerate(seq):
            forms = CALLS[s]
            if s == "adjust" and (have["successor"] or have["predecessor"] or True):
                forms = forms[:1]
            call = forms[(num + i) % len(forms)]
            err = None
            if s in ("successor", "predecessor"):
                err = "ValueError" if have[s] else None
                have[s] = 1
            elif s == "neighbor":
                err = "ValueError" if have[s] > 1 else None
                have[s] += 0 if err else 1
            elif s == "neighbor without direction":
                err = "ValueError"
            elif s == "roadside":
                err = None if adjusted else "RoadsAndLanesNotAdjusted"
            elif s == "adjust":
                adjusted = True
            name, args = call.split("(", 1)
            code += "SNAP('b%d', r)\nout%d = attempt(lambda: %s)\nSNAP('a%d', r)\n" % (i, i, call, i)
            plan.append((s, call, err))
        label = "; ".join(c for _, c, _ in plan)
        I = pool.get()
        I.snaps = []
        run = ctx.run(I, code, b, label)
        if not ctx.no_raise(run, "C20-history", label):
            continue
        for i, (s, call, err) in enumerate(plan):
            ctx.eq(I, "C20-refused" if err else "C20-accepted", "%s: call %d, %s" % (label, i + 1, call), run["out%d" % i], err or "accepted", run.pc, "the outcome")
            if err:
                unchanged(ctx, I, "C20-unchanged", "%s: refused call %d, %s" % (label, i + 1, call), I.snaps[2 * i], I.snaps[2 * i + 1])
    pool.close()


def c20_after(ctx):
    """roads positioned as part of a network, from their end or start, and generated ones; several prototypes"""
    I = ctx.interp()
    b = dict(nums("k"), a=text("a"), **HOOKS)
    nets = {
        "one road": ("od = p.OpenDrive('n')\nod.add_road(r)\n", "od.adjust_roads_and_lanes()\n"),
        "startpoints only": ("od = p.OpenDrive('n')\nod.add_road(r)\n", "od.adjust_startpoints()\n"),
        "by a neighbour, from its start": ("od = p.OpenDrive('n')\nq = fresh()\nq.id = 2\nq.add_successor(RD, 1, S)\nr.add_predecessor(RD, 2, E_)\nod.add_road(q)\nod.add_road(r)\n", "od.adjust_roads_and_lanes()\n"),
        "by a neighbour, from its end": ("od = p.OpenDrive('n')\nq = fresh()\nq.id = 2\nq.add_predecessor(RD, 1, E_)\nr.add_successor(RD, 2, S)\nod.add_road(q)\nod.add_road(r)\n", "od.adjust_roads_and_lanes()\n"),
    }
    for what, (build, adj) in nets.items():
        for side in ("", ", side=p.RoadSide.left", ", side=p.RoadSide.right"):
            code = ROAD + build + "out0 = attempt(r.add_object_roadside, o, 5%s)\n" % side + adj + "out1 = attempt(r.add_object_roadside, o, 5%s)\nout2 = attempt(r.add_object_roadside, o, 5%s)\n" % (side, side)
            run = ctx.run(I, code, b, what)
            label = "roadside objects%s, road positioned %s" % (side, what)
            if ctx.no_raise(run, "C20-history", label):
                ctx.eq(I, "C20-refused", label + ": before", run["out0"], "RoadsAndLanesNotAdjusted", run.pc, "the outcome")
                ctx.eq(I, "C20-accepted", label + ": after", Tup([run["out1"], run["out2"]]), Tup(["accepted", "accepted"]), run.pc, "the outcome")
    # two roads do not count together
    code = ROAD + "q = fresh()\nx = (attempt(lambda: r.add_successor(RD, 1, S)), attempt(lambda: q.add_successor(RD, 1, S)), attempt(lambda: r.add_predecessor(RD, 1, S)), attempt(lambda: q.add_predecessor(RD, 1, S)), attempt(lambda: r.add_neighbor(RD, 1, same)), attempt(lambda: q.add_neighbor(RD, 1, same)), attempt(lambda: r.add_neighbor(RD, 1, same)), attempt(lambda: q.add_neighbor(RD, 1, same)), attempt(lambda: r.add_neighbor(RD, 1, same)), attempt(lambda: q.add_neighbor(RD, 1, same)))\n"
    run = ctx.run(I, code, b, "two roads")
    if ctx.no_raise(run, "C20-history", "two roads"):
        ctx.eq(I, "C20-accepted", "two roads", run["x"], Tup(["accepted"] * 8 + ["ValueError"] * 2), run.pc, "the outcomes")
    # every direction and element type
    for d in ("same", "opposite"):
        for t in ("RD", "JN"):
            code = ROAD + "x = (attempt(lambda: r.add_neighbor(%s, a, %s)), attempt(lambda: r.add_neighbor(%s, a, direction=%s)), attempt(lambda: r.add_neighbor(%s, a, %s)))\n" % (t, d, t, d, t, d)
            run = ctx.run(I, code, b, "neighbours")
            if ctx.no_raise(run, "C20-history", "neighbours"):
                ctx.eq(I, "C20-accepted", "neighbours %s %s" % (t, d), run["x"], Tup(["accepted", "accepted", "ValueError"]), run.pc, "the outcomes")
    ctx.done(I)
