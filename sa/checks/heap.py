"""C11, C12, C24, C30: effects on the model, decided on the abstract heap and by comparing abstract runs."""
from .. import terms as T
from ..interp import Ext, St
from ..terms import Undecided, Ref, Tup, Sym, b_and, simp, leaves, show, vkey, same, Fn
from .serial import GEOMS, UF, ROAD, nums, text, geom_binds, KINDS
from ..harness import decorated, instance

HOOKS = {"SNAP": Ext("sa.snap"), "SETORDER": Ext("sa.setorder")}


# --------------------------------------------------------------------------------------------------
# comparison of two abstract heaps


class HeapDiff:
    """bisimulation of the cells reachable from two root lists; differences are (owner, field, text, private)"""

    def __init__(self, ctx, I, snap1, snap2):
        self.ctx, self.I = ctx, I
        self.h1, self.h2 = snap1[3], snap2[3]
        self.cond = b_and(b_and(snap1[2], snap2[2]), I.th.ax)
        self.seen = {}
        self.out = []
        self.cells = 0
        for a, b in zip(snap1[1], snap2[1]):
            self.val(a, b, self.cond, ("root", ""), False)

    def cell(self, heap, ref):
        h = heap.get(ref.a)
        return h if h is not None else self.I.base[ref.a]

    def val(self, a, b, cond, where, private):
        a, b = simp(a, cond), simp(b, cond)
        pair = T.lift(lambda x, y: Tup((x, y)), a, b)
        for c, t in leaves(pair, cond):
            if not self.I.feasible(c):
                continue
            x, y = t.items
            if isinstance(x, Ref) and isinstance(y, Ref):
                self.ref(x, y, c, where, private)
                continue
            if same(x, y):
                continue
            if isinstance(x, Ref) or isinstance(y, Ref):
                w = instance(c)
                d = w and "was %s, is now %s when %s" % (self.name(self.h1, x), self.name(self.h2, y), w[0])
            else:
                d = self.ctx.leaf_diff(y, x, c)
            if d:
                self.out.append((where, d, private))

    def name(self, heap, x):
        if isinstance(x, Ref):
            h = self.cell(heap, x)
            return "an object of kind %s" % h.kind
        return show(x)

    def ref(self, x, y, cond, where, private):
        k = (x, y)
        old = self.seen.get(k, False)
        if b_and(cond, T.b_not(old)) is False:
            return
        self.seen[k] = T.b_or(old, cond)
        p, q = self.cell(self.h1, x), self.cell(self.h2, y)
        self.cells += 1
        if p.kind != q.kind:
            self.out.append((where, "was a %s, is now a %s" % (p.kind, q.kind), private))
            return
        if p.kind in ("mod", "frame", "func", "file"):
            return
        if p.kind == "cls":
            if x is not y:
                self.out.append((where, "refers to another class", private))
                return
            owner = getattr(p.meta, "qual", "class")
        elif p.kind == "obj":
            if p.meta is not q.meta and not same(p.meta, q.meta):
                self.out.append((where, "is an object of another class", private))
                return
            owner = getattr(self.cell(self.h1, p.meta).meta, "qual", "?") if isinstance(p.meta, Ref) else show(p.meta)
        else:
            owner = None
        if p.kind in ("obj", "cls"):
            # enumeration members and class attributes are reached once
            for f in list(p.d) + [f for f in q.d if f not in p.d]:
                pr = private or f.startswith("_")
                if f.startswith("__"):
                    continue
                u, v = p.d.get(f, T.UNBOUND), q.d.get(f, T.UNBOUND)
                if p.kind == "cls" and not (isinstance(u, Ref) or isinstance(v, Ref) or T.is_plain(u)):
                    continue
                self.val(u, v, cond, (owner, f), pr)
            if p.kind == "obj" and isinstance(p.meta, Ref):
                self.val(p.meta, q.meta, cond, (owner, "class"), True if False else private)
            return
        if p.kind == "list":
            i1 = [(simp(g, cond), v) for g, v in p.items if b_and(g, cond) is not False]
            i2 = [(simp(g, cond), v) for g, v in q.items if b_and(g, cond) is not False]
            if len(i1) != len(i2):
                w = instance(cond)
                if w:
                    self.out.append((where, "had %d members, has %d now when %s" % (len(i1), len(i2), w[0]), private))
                return
            for (g1, v1), (g2, v2) in zip(i1, i2):
                if not same(g1, g2):
                    bad = b_and(cond, T.ite(g1, T.b_not(g2), g2))
                    w = instance(bad)
                    if w:
                        self.out.append((where, "has other members when %s" % w[0], private))
                self.val(v1, v2, b_and(cond, b_and(g1, g2)), where, private)
            return
        if p.kind in ("dict", "set"):
            e1, e2 = self.entries(p, cond), self.entries(q, cond)
            for k in list(e1) + [k for k in e2 if k not in e1]:
                g1, v1, n = e1.get(k, (False, None, None))
                g2, v2, m = e2.get(k, (False, None, None))
                bad = b_and(cond, T.ite(g1, T.b_not(g2), g2))
                if bad is not False:
                    w = instance(bad)
                    if w:
                        self.out.append((where, "entry %s %s when %s" % (show(n if n is not None else m), "disappeared" if b_and(bad, g1) is not False else "is new", w[0]), private))
                        continue
                self.val(v1, v2, b_and(cond, b_and(g1, g2)), where, private)
            return
        if p.kind == "elem":
            self.val(p.d.get("attrib"), q.d.get("attrib"), cond, (show(p.meta), "attrib"), private)
            for (g1, v1), (g2, v2) in zip(p.items, q.items):
                self.val(v1, v2, b_and(cond, b_and(g1, g2)), where, private)
            if len(p.items) != len(q.items):
                self.out.append((where, "has other children", private))
            return

    def entries(self, h, cond):
        out = {}
        for k, g, v in h.items:
            g = b_and(g, True)
            if b_and(g, cond) is False:
                continue
            kk = vkey(k)
            if kk in out:
                g0, v0, n = out[kk]
                out[kk] = (T.b_or(g0, g), T.ite(g0, v0, v), n)
            else:
                out[kk] = (g, v, k)
        return out


def unchanged(ctx, I, rule, construct, s1, s2):
    """obligation: no public state reachable from the roots differs between two snapshots"""
    d = HeapDiff(ctx, I, s1, s2)
    pub = [x for x in d.out if not x[2]]
    ctx.extra["cells_compared"] = ctx.extra.get("cells_compared", 0) + d.cells
    if not pub:
        ctx.ok(rule)
        return True
    for (o, f), txt, _ in pub[:3]:
        ctx.fail(rule, "%s %s.%s" % (construct, o, f), txt)
    return False


def both(I, r1, r2):
    """make the cells of two runs visible together; returns the common condition"""
    I.st = St(b_and(r1.pc, r2.pc), {**r1.end.heap, **r2.end.heap})
    return I.st.pc


def same_xml(ctx, I, rule, construct, r1, n1, r2, n2):
    a, b = r1[n1], r2[n2]
    pc = both(I, r1, r2)
    return ctx.xml(I, rule, construct, a, b, pc)


# --------------------------------------------------------------------------------------------------
# a model with one of everything

MODEL = """
import pyodrx.geometry
def marks():
    m = p.RoadMark(p.RoadMarkType.broken, mw, 3, 6, rule=p.MarkRule.no_passing)
    return m
def lanes(n, k=1):
    ls = p.Lanes()
    made = [ls]
    for i in range(k):
        c = p.Lane(a=1, b=lb, c=lc, d=ld, soffset=lo)
        m = marks() if k != 1 else p.STD_ROADMARK_SOLID
        if n % 2:
            c.add_roadmark(m)
        sec = p.LaneSection((i * 7) % 10 if i else 9, c)
        if n % 2 == 0:
            c.add_roadmark(m)
        made.append(m)
        made += [sec, c]
        for j in range(n):
            l, r = p.Lane(a=w, soffset=lo), p.Lane(p.LaneType.shoulder, a=w, b=wb, c=lc, d=ld)
            m = marks() if j or k != 1 else p.STD_ROADMARK_BROKEN
            l.add_roadmark(m)
            sec.add_left_lane(l)
            sec.add_right_lane(r)
            made += [l, r, m]
        ls.add_lanesection(sec)
    return ls, made
def planview(geoms, start=None):
    pv = p.PlanView() if start is None else p.PlanView(*start)
    for g in geoms:
        pv.add_geometry(g)
    return pv
def roadside(i):
    o = p.Object(s, t, p.ObjectType.pole, id='o' + i, height=oh)
    o.repeat(10, 2)
    o.repeat(10, 2, sStart=3, heightEnd=4)
    sg = p.Signal(s, t, 'se', 'stop', id='s' + i, value=oh, unit='m')
    return o, sg
def build(q=''):
    made = []
    g1 = [p.Line(L), p.Arc(cv, length=L), p.Arc(cv, angle=an)]
    g2 = [p.Spiral(c0, c1, length=L), p.Line(L)]
    g3 = [p.ParamPoly3(au, bu, cu, du, av, bv, cv_, dv, prange='arcLength', length=L), p.Line(L)]
    p1, p2, p3 = planview(g1, (x0, y0, h0)), planview(g2), planview(g3)
    l1, m1 = lanes(2, 2)
    l2, m2 = lanes(2)
    l3, m3 = lanes(2)
    r1 = p.Road(7, p1, l1, name='one', rule='RHT')
    r2 = p.Road(2, p2, l2)
    r3 = p.Road(3, p3, l3)
    # road 3 lies before road 1, so that it is positioned from its end
    r1.add_successor(p.ElementType.road, 2, p.ContactPoint.start)
    r2.add_predecessor(p.ElementType.road, 7, p.ContactPoint.end)
    r1.add_predecessor(p.ElementType.road, 3, p.ContactPoint.end)
    r3.add_successor(p.ElementType.road, 7, p.ContactPoint.start)
    r1.add_neighbor(p.ElementType.road, 9, p.Direction.same)
    r2.add_neighbor(p.ElementType.road, 9, p.Direction.same)
    r2.add_neighbor(p.ElementType.road, 8, p.Direction.opposite)
    r2.add_successor(p.ElementType.junction, 5)
    for i, r in enumerate((r1, r2, r3)):
        o, sg = roadside(q + str(i))
        r.add_object(o)
        r.add_signal(sg)
        made += [o, sg]
        # further ones out of order
        r.add_object([p.Object(9, -t, id=q + 'z%d' % i), p.Object(4, t, id=q + 'y%d' % i)])
        r.add_signal([p.Signal(9, t, 'se', 'b', id=q + 'n%d' % i), p.Signal(4, -1, 'se', 'a', id=q + 'm%d' % i)])
    od = p.OpenDrive('net')
    od.add_road(r1)
    od.add_road(r2)
    od.add_road(r3)
    j = p.Junction('j', 5)
    k = p.Connection(7, 2, p.ContactPoint.start)
    k.add_lanelink(1, 1)
    k.add_lanelink(-1, -1)
    k.add_lanelink(2, 2)
    j.add_connection(k)
    j.add_connection(p.Connection(2, 3, p.ContactPoint.end))
    j.add_connection(p.Connection(3, 2, p.ContactPoint.end))
    od.add_junction(j)
    made += g1 + g2 + g3 + [p1, p2, p3] + m1 + m2 + m3 + [r1, r2, r3, r1.links, j, k, od]
    return od, made
def more(od, q):
    # every way of changing the model further
    r1, r2, r3 = [od.roads[k] for k in od.roads]
    for i, r in enumerate((r1, r2, r3)):
        if r.planview.adjusted:
            r.add_object_roadside(p.Object(s, t, id='%srs%d' % (q, i)), 5)
        r.add_object([p.Object(s, t), p.Object(s, t, id='%sx%d' % (q, i))])
        r.add_signal([p.Signal(s, t, 'se', 'go')])
        if i != 1:
            r.add_neighbor(p.ElementType.road, 4, p.Direction.opposite)
        for o in r.objects:
            o.repeat(1, 2)
        for sec in list(r.lanes.lanesections):
            x = p.Lane(a=w)
            sec.add_left_lane(x)
            x = p.Lane(a=w)
            x.add_roadmark(marks())
            x.add_link('successor', 7)
            sec.add_right_lane(x)
            sec.centerlane.add_roadmark(p.RoadMark(p.RoadMarkType.solid, mw, 1))
            # the shared standard marks, on lanes with other offsets, before and after the lanes got their place
            for side in (sec.add_left_lane, sec.add_right_lane):
                x = p.Lane(a=w, b=wb, soffset=lo2)
                if i == 0:
                    x.add_roadmark(p.STD_ROADMARK_BROKEN)
                side(x)
                x.add_roadmark(p.STD_ROADMARK_SOLID)
            sec.leftlanes[0].add_link('predecessor', 4)
        x = p.Lane(a=1, soffset=lo2)
        extra = p.LaneSection(50, x)
        x.add_roadmark(p.STD_ROADMARK_SOLID)
        for k in range(4):
            extra.add_left_lane(p.Lane(a=k))
            extra.add_right_lane(p.Lane(a=k))
        r.lanes.add_lanesection(extra)
    r3.add_predecessor(p.ElementType.junction, 6)
    for j in od.junctions:
        for k in j.connections:
            k.add_lanelink(3, 3)
        j.add_connection(p.Connection(3, 7, p.ContactPoint.end))
    od.add_junction(p.Junction('k', 6))
    pv = p.PlanView(1, 2, 3)
    pv.add_geometry(p.Line(L))
    od.add_road(p.Road(4, pv, p.Lanes()))
"""


def model_binds():
    b = nums("x0", "y0", "h0", "s", "t", "oh", "mw", "w", "wb", "lb", "lc", "ld", "lo", "lo2", "c0", "c1", "au", "bu", "cu", "du", "av", "bv", "cv_", "dv", L="+", cv="nz", an="+")
    b.update(HOOKS)
    return b


def queries(I, ref, heap):
    """public argument-free queries (get_...) of an object"""
    h = heap.get(ref.a) or I.base[ref.a]
    out = []
    if h.kind != "obj" or not isinstance(h.meta, Ref):
        return out
    done = set()
    for c in (heap.get(h.meta.a) or I.base[h.meta.a]).meta.mro:
        if not isinstance(c, Ref):
            continue
        for n, v in (heap.get(c.a) or I.base[c.a]).d.items():
            if n.startswith("get_") and n not in done and hasattr(v, "node"):
                done.add(n)
                a = v.node.args
                need = len(a.posonlyargs) + len(a.args) - 1 - len(a.defaults) + sum(1 for d in a.kw_defaults if d is None)
                if need <= 0:
                    out.append(n)
    return sorted(out)


def nondet(v):
    """does a leaf depend on time, randomness or memory layout?"""
    if isinstance(v, Fn):
        return v.name in ("now", "random", "address") or any(nondet(a) for a in v.args)
    if isinstance(v, Sym):
        return v.name.split("#")[0] in ("random", "clock", "address") and "#" in v.name
    if isinstance(v, T.SStr):
        return any(nondet(q) for q in v.parts)
    if isinstance(v, T.StrOf):
        return nondet(v.v)
    if isinstance(v, T.Poly):
        return any(natom(a) for a in v.atoms())
    if isinstance(v, Tup):
        return any(nondet(i) for i in v.items)
    return False


def natom(a):
    if a.kind == "sym":
        return str(a.args[0]).startswith("random#")
    return any(nondet(x) for x in a.args)


def scan(ctx, I, rule, construct, elem, care, path=""):
    h = I.get(elem)
    path += "/" + show(h.meta)
    locs = ctx.locs(I, h.d["attrib"], care)
    for k, (g, v) in ctx.entries(I, h.d["attrib"], care).items():
        if k in ctx.ignore:
            continue
        for c, leaf in leaves(v, b_and(care, g)):
            if nondet(leaf):
                ctx.fail(rule, construct + path + "@" + k, "depends on time, randomness or memory layout: %s%s" % (show(leaf), " (set at %s)" % locs[k] if k in locs else ""))
                break
        else:
            ctx.ok(rule)
    for g, ch in h.items:
        for c, one in leaves(ch, b_and(care, g)):
            if isinstance(one, Ref):
                scan(ctx, I, rule, construct, one, c, path)


PARTS = [
    ("RoadMark", "x = p.RoadMark(mt, o1, o2, o3, o4, n1, rule, col, wt, n2, lc)"),
    ("RoadMark with width", "x = p.RoadMark(mt, n1, o2, o3, o4, n2, rule, col, wt, n2, lc)"),
    ("default RoadMark", "x = p.RoadMark(mt)"),
    ("RoadLine", "x = p.RoadLine(n1, n2, n3, n4, n5, rule, col)"),
    ("Lane", "x = p.Lane(lt, n1, n2, n3, n4, n5)\ny = p.LaneSection(n6, x)\nif more:\n    x.add_roadmark(p.RoadMark(mt, o1, o2, o3, o4, n1, rule, col, wt, n2, lc))\nif o1 is not None:\n    x.add_link('successor', i1)\nif o2 is not None:\n    x.add_link('predecessor', i2)"),
    ("LaneSection", "x = p.LaneSection(n6, p.Lane(lt, n1))\nif more:\n    x.add_left_lane(p.Lane(lt, n1, n2))\nif o1 is not None:\n    x.add_right_lane(p.standard_lane(n1))\n    x.add_right_lane(p.Lane(lt, n1, n2))\ny = p.Lanes()\ny.add_lanesection(x)"),
    ("Signal", "x = p.Signal(n1, n2, tx, i1, oi1, i2, oi2, dyn, o1, oi3, n3, ori, n4, n5, n6, o2, o3)\nif more:\n    road.add_signal(x)"),
    ("default Signal", "x = p.Signal(n1, n2, tx, i1)\nif more:\n    road.add_signal(x)\ny = road"),
    ("Object", "x = p.Object(n1, n2, ot, oi1, i2, oi2, dyn, n3, ori, n4, n5, n6, o1, o2, o3, o4, o5)\nif more:\n    road.add_object(x)"),
    ("default Object", "x = p.Object(n1, n2)\nif more:\n    road.add_object(x)\ny = road"),
    ("repeated Object", "x = p.Object(n1, n2, ot, oi1, i2, height=o3, zOffset=n3)\nx.repeat(n1, n2, o1, o2, o4, o1, o2, o4, o1, o2, o4, o1, o2, o4, o5)\nif more:\n    x.repeat(n4, n5)"),
    ("lane links", "x = p.Lane(a=n1)\ny = p.LaneSection(0, x)\nx.add_link('successor', i1)\nif more:\n    x.add_link('predecessor', i2)\ny = x.links"),
    ("road links", "x = p.Road(i1, p.PlanView(), p.Lanes(), n1, ot1, ot2)\nx.planview.add_geometry(p.Line(L))\nx.planview.adjust_geometries()\nif more:\n    x.add_successor(et, i1, ocp)\nif o1 is not None:\n    x.add_predecessor(et, i2, ocp)\nif o2 is not None:\n    x.add_neighbor(et, i2, dr)\ny = x.links"),
    ("Connection", "x = p.Connection(i1, i2, cp, oi1)\nif more:\n    x.add_lanelink(n1, n2)\n    x.add_lanelink(i1, i2)\ny = p.Junction(tx, i1)\ny.add_connection(x)"),
    ("loose Connection", "x = p.Connection(i1, i2, cp, oi1)\nif more:\n    x.add_lanelink(n1, n2)"),
    ("loose Lane", "x = p.Lane(lt, n1, n2, n3, n4, n5)\nif more:\n    x.add_link('successor', i1)"),
    ("Junction", "x = p.Junction(tx, i1)\nif more:\n    x.add_connection(p.Connection(i1, i2, cp))\n    x.add_connection(p.Connection(i2, i1, cp, 5))"),
    ("OpenDrive", "x = p.OpenDrive(tx)\nif more:\n    x.add_junction(p.Junction(tx, i1))\nif o1 is not None:\n    x.add_road(road)"),
    ("Dependency", "x = p.Dependency(i1, i2)"),
] + [("plan view from its end with " + k, "x = p.PlanView()\ny = %s\nx.add_geometry(p.Line(L))\nx.add_geometry(y)\nx.set_start_point(x0, y0, h0)\nif more:\n    x.adjust_geometries(True)" % m) for k, (m, _, _) in KINDS.items()] + [("plan view with " + k, "x = p.PlanView(x0, y0, h0)\ny = %s\nx.add_geometry(p.Line(L))\nx.add_geometry(y)\nif more:\n    x.adjust_geometries()" % m) for k, (m, _, _) in KINDS.items()]


def c11_parts(ctx):
    """every class with every combination of given and omitted arguments: queries leave it as it was"""
    for label, make in PARTS:
        I = ctx.interp()
        b = dict(geom_binds(), **nums("n1", "n2", "n3", "n4", "n5", "n6"))
        b.update(HOOKS)
        for i in range(1, 6):
            b["o%d" % i] = ctx.opt(I, "o%d" % i, T.nsym("v%d" % i))
        for i in range(1, 4):
            b["i%d" % i] = Sym("i%d" % i)
            b["oi%d" % i] = ctx.opt(I, "oi%d" % i, Sym("w%d" % i))
        for n, e, o in (("mt", "RoadMarkType", 0), ("col", "RoadMarkColor", 0), ("wt", "RoadMarkWeight", 0), ("lt", "LaneType", 0), ("dyn", "Dynamic", 0), ("ori", "Orientation", 0), ("ot", "ObjectType", 0), ("et", "ElementType", 0), ("cp", "ContactPoint", 0), ("dr", "Direction", 0), ("rule", "MarkRule", 1), ("lc", "LaneChange", 1), ("ocp", "ContactPoint", 1)):
            v = ctx.enum(I, e, n)
            b[n] = ctx.opt(I, n + "-given", v) if o else v
        b["ot1"], b["ot2"] = ctx.opt(I, "ot1", text("t1")), ctx.opt(I, "ot2", text("t2"))
        b["tx"], b["more"] = text("tx"), I.th.pred("more", "x")
        head = ROAD + "road = p.Road(7, straight(L), p.Lanes())\ny = None\n" + make + "\n"
        r = ctx.run(I, head, b, label)
        if not ctx.no_raise(r, "C11-builds", label):
            continue
        qs = []
        for v in ("x", "y"):
            for c, o in leaves(r[v], r.pc):
                if isinstance(o, Ref):
                    qs += [(v, q) for q in queries(I, o, r.end.heap) if (v, q) not in qs]
        code = head
        for v, q in qs + [(v, q) for v, q in reversed(qs)]:
            code += "SNAP('b', x, y, road)\ntry:\n    %s.%s()\nexcept Exception:\n    pass\nSNAP('a', x, y, road)\n" % (v, q)
        n = 0
        for v, q in qs:
            if q in ("get_element", "get_attributes"):
                code += "try:\n    a{0} = {1}.{2}()\n    b{0} = {1}.{2}()\nexcept Exception:\n    a{0} = b{0} = None\n".format(n, v, q)
                n += 1
        I.snaps = []
        r = ctx.run(I, code, b, "every query on a " + label)
        if ctx.no_raise(r, "C11-queries", label):
            I.st = r.end
            for k in range(len(I.snaps) // 2):
                v, q = (qs + qs[::-1])[k]
                unchanged(ctx, I, "C11-read-only", "%s: %s" % (label, q), I.snaps[2 * k], I.snaps[2 * k + 1])
            for k in range(n):
                for c, one in leaves(r["a%d" % k], r.pc):
                    if isinstance(one, Ref) and I.get(one).kind == "elem":
                        for c2, two in leaves(r["b%d" % k], c):
                            ctx.xml(I, "C11-again", label, two, one, c2)
            ctx.sample("%s with every combination of arguments: %s" % (label, ", ".join(sorted({q for _, q in qs}))))
        ctx.done(I)


def c11(ctx):
    ctx.ignore = ("date",)
    ctx.parallel([c11_models, c11_parts])


def c11_models(ctx):
    for adjusted in (False, True):
        I = ctx.interp()
        adj = "od.adjust_roads_and_lanes()\n" if adjusted else ""
        r = ctx.run(I, MODEL + "od, made = build()\n" + adj + "n = len(made)\n", model_binds(), "model")
        if not ctx.no_raise(r, "C11-builds", "model"):
            continue
        made = r["made"]
        objs = [v for _, v in I.get(made).items]
        calls, owner = [], {}
        for i, o in enumerate(objs):
            if not isinstance(o, Ref):
                raise Undecided("model object")
            for q in queries(I, o, r.end.heap):
                calls.append((i, q))
                owner[i] = I.get(I.get(o).meta).meta.qual
        # every single query leaves the model as it was
        code = MODEL + "od, made = build()\n" + adj
        tag = "adjusted" if adjusted else "unadjusted"
        for i, q in calls:
            code += "SNAP('b', od, made)\ntry:\n    made[%d].%s()\nexcept Exception:\n    pass\nSNAP('a', od, made)\n" % (i, q)
        I.snaps = []
        r = ctx.run(I, code, model_binds(), "every query on an %s model" % tag)
        if not ctx.no_raise(r, "C11-queries", tag):
            continue
        names = {}
        for n, (i, q) in enumerate(calls):
            cls = owner[i]
            I.st = r.end
            s1, s2 = I.snaps[2 * n], I.snaps[2 * n + 1]
            if unchanged(ctx, I, "C11-read-only", "%s.%s" % (cls, q), s1, s2):
                names.setdefault(cls, set()).add(q)
        ctx.sample("%s model: %s" % (tag, "; ".join("%s: %s" % (c, ", ".join(sorted(q))) for c, q in sorted(names.items()))))
        # asking again gives the same
        I.snaps = []
        xml = ["od"] + ["made[%d]" % i for i, q in calls if q == "get_element"] if adjusted else ["made[%d]" % i for i, q in calls if q == "get_element"]
        code = MODEL + "od, made = build()\n" + adj
        tries = []
        for n, e in enumerate(xml):
            code += "try:\n    a{0} = {1}.get_element()\n    b{0} = {1}.get_element()\nexcept Exception:\n    a{0} = b{0} = None\n".format(n, e)
        code += "made[0].get_element()\n"
        r = ctx.run(I, code, model_binds(), "asking twice (%s)" % tag)
        if ctx.no_raise(r, "C11-again", tag):
            for n, e in enumerate(xml):
                a, b = r["a%d" % n], r["b%d" % n]
                if a is None or b is None:
                    continue
                ctx.xml(I, "C11-again", "%s#%d" % (e, n), b, a, r.pc)
                scan(ctx, I, "C11-deterministic", e, a, r.pc) if isinstance(a, Ref) else None
        ctx.done(I)
        # queries in between change nothing that follows; iteration order of sets does not matter
        I = ctx.interp()
        ask = "".join("try:\n    made[%d].%s()\nexcept Exception:\n    pass\n" % c for c in calls)
        tail = "more(od, 'q')\n%sod.adjust_roads_and_lanes()\nx = od.get_element()\n"
        r1 = ctx.run(I, MODEL + "od, made = build()\n" + adj + tail % "", model_binds(), "model without queries")
        r2 = ctx.run(I, MODEL + "od, made = build()\n" + ask + adj + ask + tail % ask, model_binds(), "model with queries in between")
        r3 = ctx.run(I, "SETORDER(True)\n" + MODEL + "od, made = build()\n" + adj + tail % "" + "SETORDER(False)\n", model_binds(), "model with another set order")
        I.set_rev = False
        if all(ctx.no_raise(r, "C11-history", tag) for r in (r1, r2, r3)):
            ctx.current = "queries in between (%s)" % tag
            same_xml(ctx, I, "C11-history", tag, r2, "x", r1, "x")
            ctx.current = "set order (%s)" % tag
            same_xml(ctx, I, "C11-order", tag, r3, "x", r1, "x")
        ctx.done(I)


GENERATED = """
def gen(q=''):
    g = [p.Line(L), p.Arc(cv, length=L)]
    r1 = p.create_road(g, 1, 2, 2)
    r2 = p.create_straight_road(2, L)
    r3 = p.create_cloth_arc_cloth(ac, aa, ca, 3)
    r4 = p.create_road(p.Line(L), 4)
    r1.add_successor(p.ElementType.junction, 9)
    jr = p.create_straight_road(100, junction=9, n_lanes=2)
    jr.add_predecessor(p.ElementType.road, 1, p.ContactPoint.end)
    jr.add_successor(p.ElementType.road, 5, p.ContactPoint.start)
    r5 = p.create_road(p.Line(L), 5, 2, 2)
    r5.add_predecessor(p.ElementType.junction, 9)
    j = p.create_junction([jr], 9, [r1, r5])
    a, b = p.create_straight_road(6), p.create_straight_road(7)
    c = p.create_straight_road(8)
    turn = p.create_junction_roads([a, b, c], [0, numpy.pi / 2, numpy.pi], rad, 3, startnum=200)
    k = p.create_junction(turn, 3, [a, b, c])
    od = p.OpenDrive('gen')
    for r in [r1, jr, r5]:
        od.add_road(r)
    od.add_junction(j)
    o, sg = roadside(q + 'g')
    r4.add_object(o)
    r2.add_signal(sg)
    s1, s2 = p.standard_lane(), p.standard_lane(w)
    # widths that are zero, and the same marks for several
    z = [p.create_straight_road(20, L, lane_offset=0), p.create_road(p.Line(L), 21, 1, 1, lane_width=0), p.create_cloth_arc_cloth(ac, aa, ca, 22, lane_offset=0), p.create_straight_road(23, L, n_lanes=0), p.create_road(p.Line(L), 24, 0, 1, center_road_mark=p.STD_ROADMARK_BROKEN)]
    z += [p.standard_lane(0), p.standard_lane(0, p.STD_ROADMARK_SOLID), p.standard_lane(w, p.STD_ROADMARK_SOLID), p.standard_lane(rm=p.STD_ROADMARK_BROKEN)]
    for i, y in enumerate(z):
        if isinstance(y, p.Lane):
            h = p.LaneSection(0, p.Lane(a=0))
            h.add_left_lane(y)
            z.append(h)
    made = g + [r1, r2, r3, r4, r5, jr, j, a, b, c, k, s1, s2] + z + turn
    return od, made
def alter(od, made):
    for x in made:
        if isinstance(x, p.Road):
            if not x.planview.adjusted:
                x.planview.adjust_geometries()
            x.add_object_roadside(p.Object(s, t), 5)
            x.add_object(p.Object(s, t))
            x.add_signal([p.Signal(s, t, 'se', 'go')])
            x.add_neighbor(p.ElementType.road, 8, p.Direction.opposite)
            if x.predecessor is None:
                x.add_predecessor(p.ElementType.road, 77, p.ContactPoint.start)
            for sec in x.lanes.lanesections:
                for y in sec.leftlanes + sec.rightlanes:
                    y.add_link('successor', 3)
                sec.centerlane.add_link('successor', 3)
                sec.centerlane.add_roadmark(marks())
                sec.add_left_lane(p.Lane(a=w))
                sec.add_right_lane(p.Lane(a=w))
            x.lanes.add_lanesection(p.LaneSection(50, p.Lane()))
        if isinstance(x, p.Lane):
            x.add_link('predecessor', 5)
            x.add_roadmark(marks())
        if isinstance(x, p.Junction):
            x.connections[0].add_lanelink(4, 4)
            x.add_connection(p.Connection(3, 1, p.ContactPoint.end))
def written(od, made):
    out = []
    for x in made:
        if isinstance(x, (p.Road, p.Junction, p.Lane, p.Lanes, p.LaneSection, p.RoadMark, p.Object, p.Signal)):
            try:
                out.append(x.get_element())
            except ValueError:
                pass
    return out
def adjusted(made):
    for x in made:
        if isinstance(x, p.Road) and not x.planview.adjusted:
            x.planview.adjust_geometries()
"""


def xml_list(ctx, I, rule, construct, r1, n1, r2, n2):
    a, b = r1[n1], None
    b = r2[n2]
    pc = both(I, r1, r2)
    la, lb = I.get(a).items, I.get(b).items
    if len(la) != len(lb):
        raise Undecided("different number of elements")
    for k, ((ga, x), (gb, y)) in enumerate(zip(la, lb)):
        ctx.xml(I, rule, "%s#%d" % (construct, k), x, y, b_and(pc, b_and(ga, gb)))


def c12(ctx):
    ctx.ignore = ("date",)
    ctx.parallel([c12_models, c12_standards, decorated("Lane Road", c12_standards)])


def c12_models(ctx):
    binds = dict(model_binds(), **nums("ca", ac="+", aa="+", rad="+"))
    for kind, build, change in (
        ("model", "build", ["od1.adjust_roads_and_lanes()", "more(od1, 'm')", "od1.adjust_roads_and_lanes()", "od1.get_element()"]),
        ("generated", "gen", ["adjusted(made1)", "alter(od1, made1)", "written(od1, made1)"]),
    ):
        for when in ("unadjusted", "adjusted"):
            I = ctx.interp()
            pre = "" if when == "unadjusted" else ("od2.adjust_roads_and_lanes()\n" if kind == "model" else "adjusted(made2)\n")
            head = "import numpy\n" + MODEL + GENERATED
            code = head + "od1, made1 = %s('a')\nod2, made2 = %s('b')\n%s" % (build, build, pre)
            for step in change:
                code += "SNAP('b', od2, made2)\n%s\nSNAP('a', od2, made2)\n" % step
            I.snaps = []
            r = ctx.run(I, code, binds, "second %s model while the first changes (%s)" % (kind, when))
            if not ctx.no_raise(r, "C12-runs", kind):
                continue
            I.st = r.end
            for n, step in enumerate(change):
                unchanged(ctx, I, "C12-independent", "%s: %s" % (kind, step), I.snaps[2 * n], I.snaps[2 * n + 1])
            ctx.sample("%s model %s: %s on another model leaves it alone" % (kind, when, "; ".join(change)))
        ctx.done(I)
        # what the second model writes does not depend on the first
        I = ctx.interp()
        after = "od2.adjust_roads_and_lanes()\n" if kind == "model" else "adjusted(made2)\n"
        tail = after + "x = written(od2, made2)\n"
        other = "od1, made1 = %s('a')\n" % build
        r1 = ctx.run(I, head + "od2, made2 = %s('b')\n" % build + tail, binds, "%s model on its own" % kind)
        r2 = ctx.run(I, head + other + "\n".join(change) + "\nod2, made2 = %s('b')\n" % build + tail, binds, "%s model after another" % kind)
        r3 = ctx.run(I, head + other + "od2, made2 = %s('b')\n" % build + "\n".join(change) + "\n" + tail, binds, "%s model interleaved with another" % kind)
        if all(ctx.no_raise(r, "C12-runs", kind) for r in (r1, r2, r3)):
            ctx.current = "%s model after another" % kind
            xml_list(ctx, I, "C12-written", kind, r2, "x", r1, "x")
            ctx.current = "%s model interleaved with another" % kind
            xml_list(ctx, I, "C12-written", kind, r3, "x", r1, "x")
        ctx.done(I)


def c12_standards(ctx):
    """nothing at module or class level changes, whatever the generators and lanes are given"""
    for kind, code in (
        ("roads of unknown lane width", "made = [p.create_road(p.Line(L), ri, l, r, rt, lane_width=w) for l, r in ((0, 1), (1, 1), (2, 3))]\nmade += [p.create_road([p.Line(L), p.Arc(cv, length=l2)], 2, 2, 0, center_road_mark=mark, lane_width=w), p.create_road(p.Line(L), 3)]"),
        ("straight roads", "made = [p.create_straight_road(ri, L, rt, n, w) for n in (0, 1, 3)] + [p.create_straight_road(4)]"),
        ("curved roads", "made = [p.create_cloth_arc_cloth(ac, aa, ca, ri, rt, n_lanes=n, lane_offset=w) for n in (0, 1, 2)]"),
        ("lanes", "made = [p.standard_lane(w), p.standard_lane(w, mark), p.standard_lane(w, p.STD_ROADMARK_SOLID)]\nfor x in (p.STD_ROADMARK_SOLID, p.STD_ROADMARK_BROKEN, mark):\n    for y in (p.Lane(ty, w, wb, lc, ld, lo), p.Lane(a=w)):\n        y.add_roadmark(x)\n        y.add_link('successor', ri)\n        sec = p.LaneSection(lo, y)\n        for z in (p.Lane(ty, w, soffset=lo2), p.Lane(ty, wb)):\n            z.add_roadmark(x)\n            sec.add_left_lane(z)\n        q = p.Lanes()\n        q.add_lanesection(sec)\n        made.append(q)"),
        ("junction roads", "rs = [p.create_straight_road(k, L, lane_offset=w) for k in (6, 7, 8)]\nmade = rs + p.create_junction_roads(rs, [0, numpy.pi / 2, numpy.pi], rad, 3, startnum=200)\nmade.append(p.create_junction(made[3:], 3, rs))"),
    ):
        I = ctx.interp()
        shared = []
        for name, ref in sorted(I.mods.items()):
            if name.split(".")[0] == "pyodrx":
                for n, v in sorted(I.get(ref).d.items()):
                    if not n.startswith("__") and not (isinstance(v, Ref) and I.get(v).kind in ("mod", "func")) and (T.is_plain(v) or isinstance(v, (Ref, Tup))):
                        shared.append(v)
        binds = dict(model_binds(), **nums("l2", "ca", ac="+", aa="+", rad="+", rt=None), ri=Sym("ri"), ty=ctx.enum(I, "LaneType", "ty"), shared=Tup(shared))
        r = ctx.run(I, "import numpy\n" + MODEL + "mark = marks()\nSNAP('b', shared, mark)\n%s\nSNAP('m', shared, mark)\nfor x in made:\n    if isinstance(x, p.Road):\n        x.planview.adjust_geometries()\n        x.lanes.lanesections[0].centerlane.add_roadmark(mark)\n    if not isinstance(x, p.Lane):\n        x.get_element()\nSNAP('a', shared, mark)\n" % code, binds, "shared things while building %s" % kind)
        if ctx.no_raise(r, "C12-runs", kind):
            I.st = r.end
            unchanged(ctx, I, "C12-standards", "building " + kind, I.snaps[0], I.snaps[1])
            unchanged(ctx, I, "C12-standards", "adjusting and writing " + kind, I.snaps[0], I.snaps[2])
            ctx.sample("%d module level values and the classes behind them while building %s" % (len(shared), kind))
        ctx.done(I)


def c24(ctx):
    """every geometry kind: any query sequence leaves the answers of every later query as on a fresh geometry"""
    ops = {
        "end": "g.get_end_data({0}x, {0}y, {0}h)",
        "start": "g.get_start_data({0}x, {0}y, {0}h)",
        "xml": "g.get_element()",
    }
    for kind, (make, _, _) in KINDS.items():
        binds = dict(geom_binds(), **HOOKS)
        for q in "abcd":
            binds.update(nums(q + "x", q + "y", q + "h"))
        depth = 2
        while True:
            I = ctx.interp()
            seqs = [()]
            for d in range(depth):
                seqs += [q + (o,) for q in seqs if len(q) == d for o in ops]
            code = "fresh = %s\nfe = fresh.get_end_data(dx, dy, dh)\nfresh = %s\nfs = fresh.get_start_data(dx, dy, dh)\nfresh = %s\nfx = fresh.get_element()\n" % (make, make, make)
            for n, seq in enumerate(seqs):
                before = "g = %s\n" % make + "".join(ops[o].format("abc"[i]) + "\n" for i, o in enumerate(seq))
                code += before + "SNAP('s', g)\n"
                for final in ops:
                    code += before + "r%d%s = %s\n" % (n, final, ops[final].format("d"))
            I.snaps = []
            r = ctx.run(I, code, binds, "call histories on " + kind)
            if not ctx.no_raise(r, "C24-calls", kind):
                break
            good = True
            for n, seq in enumerate(seqs):
                for final, want in (("end", "fe"), ("start", "fs"), ("xml", "fx")):
                    got, exp = r["r%d%s" % (n, final)], r[want]
                    label = "%s: %s after %s" % (kind, final, ", ".join(seq))
                    if final == "xml":
                        good &= ctx.xml(I, "C24-history", label, got, exp, r.pc)
                    else:
                        good &= ctx.eq(I, "C24-history", label, got, exp, r.pc, "the answer")
            # closure: do the longest histories lead to a state that a shorter one (at other poses) also leads to?
            I.st = r.end
            closed = True
            for n, seq in enumerate(seqs):
                if len(seq) == depth and closed:
                    closed = any(not HeapDiff(ctx, I, I.snaps[n], I.snaps[m]).out for m, q in enumerate(seqs) if len(q) < depth and (not q or q[0] != seq[0] or len(q) == 1))
            ctx.done(I)
            ctx.sample("%s: each query after every history of up to %d calls at other poses; %s" % (make, depth, "longer histories reach no new state" if closed else "states of longer histories not closed"))
            if closed or not good or depth == 3:
                break
            depth += 1
    # the same geometry asked for from both sides through two plan views
    for kind, (make, _, _) in KINDS.items():
        I = ctx.interp()
        r = ctx.run(
            I,
            """
def road(g, fe):
    pv = p.PlanView() if fe else p.PlanView(ax, ay, ah)
    pv.add_geometry(p.Line(L))
    pv.add_geometry(g)
    if fe:
        pv.set_start_point(ax, ay, ah)
    pv.adjust_geometries(fe)
    return pv.get_element()
fwd, bwd = road(%(m)s, False), road(%(m)s, True)
g = %(m)s
f1, b1, f2 = road(g, False), road(g, True), road(g, False)
"""
            % dict(m=make),
            dict(geom_binds(), **nums("ax", "ay", "ah")),
            "%s shared by plan views" % kind,
        )
        if ctx.no_raise(r, "C24-shared", kind):
            for a, e in (("f1", "fwd"), ("b1", "bwd"), ("f2", "fwd")):
                ctx.xml(I, "C24-shared", "%s %s" % (kind, a), r[a], r[e], r.pc)
        ctx.done(I)
