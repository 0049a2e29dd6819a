"""C01-C10: the abstract XML tree every class produces from symbolic arguments, against attribute tables."""
from .. import terms as T
from ..interp import Ext
from ..terms import Sym, SStr

GEOMS = '''
import scipy.integrate
import numpy
class Opaque:
    """any geometry: end pose and length are unknown functions of its start pose"""
    def __init__(self, k):
        self.k = k
    def get_end_data(self, x, y, h):
        return EX(self.k, x, y, h), EY(self.k, x, y, h), EH(self.k, x, y, h), GL(self.k)
    def get_start_data(self, x, y, h):
        return SX(self.k, x, y, h), SY(self.k, x, y, h), SH(self.k, x, y, h), GL(self.k)
    def get_element(self):
        return ET.Element('opaque', attrib={'k': str(self.k)})
'''
UF = {k: Ext("uf." + k) for k in ("EX", "EY", "EH", "SX", "SY", "SH", "GL")}


def nums(*names, **signs):
    out = {n: T.nsym(n) for n in names}
    for n, s in signs.items():
        out[n] = T.nsym(n, s)
    return out


def text(name):
    return SStr([Sym(name, "str")])


# --------------------------------------------------------------------------------------------------

KINDS = {
    "line": ("p.Line(L)", "L", "E('line')"),
    "line of zero length": ("p.Line(0)", "0", "E('line')"),
    "arc of zero length": ("p.Arc(c, length=0)", "0", "E('arc', {'curvature': str(c)})"),
    "arc of zero angle": ("p.Arc(c, angle=0)", "0", "E('arc', {'curvature': str(c)})"),
    "arc-length": ("p.Arc(c, length=L)", "L", "E('arc', {'curvature': str(c)})"),
    "arc-angle": ("p.Arc(c, angle=a)", None, "E('arc', {'curvature': str(c)})"),
    "spiral-length": ("p.Spiral(c0, c1, length=L)", "L", "E('spiral', {'curvStart': str(c0), 'curvEnd': str(c1)})"),
    "spiral-angle": ("p.Spiral(u0, u1, angle=aq)", None, "E('spiral', {'curvStart': str(u0), 'curvEnd': str(u1)})"),
    "spiral-cdot": ("p.Spiral(c0, c0 + d, cdot=cd)", None, "E('spiral', {'curvStart': str(c0), 'curvEnd': str(c0 + d)})"),
    "poly-normalized": (
        "p.ParamPoly3(au, bu, cu, du, av, bv, cv, dv)",
        None,
        "E('paramPoly3', {'aU': str(au), 'bU': str(bu), 'cU': str(cu), 'dU': str(du), 'aV': str(av), 'bV': str(bv), 'cV': str(cv), 'dV': str(dv), 'pRange': 'normalized'})",
    ),
    "poly-arclength": (
        "p.ParamPoly3(au, bu, cu, du, av, bv, cv, dv, prange='arcLength', length=L)",
        "L",
        "E('paramPoly3', {'aU': str(au), 'bU': str(bu), 'cU': str(cu), 'dU': str(du), 'aV': str(av), 'bV': str(bv), 'cV': str(cv), 'dV': str(dv), 'pRange': 'arcLength'})",
    ),
}


def geom_binds():
    b = nums("x0", "y0", "h0", "c0", "c1", "a", "au", "bu", "cu", "du", "av", "bv", "cv", "dv", L="+", c="nz", u0="+", u1="+", aq="nz", d="+", cd="+")
    b.update(UF)
    return b


# Each scenario generator yields (interp, run, label, [(got, want...)]); c01..c08 compare, c10 looks for leaks.


def settle(ctx, rule, gen):
    for I, r, label, pairs in gen:
        if ctx.no_raise(r, rule + "-accepts", label):
            for got, *wants in pairs:
                if wants:
                    ctx.xml_any(I, rule + "-xml", label, r[got], [r[w] for w in wants], r.pc)
        ctx.done(I)


def sc_planview(ctx):
    for kind, (make, length, shape) in KINDS.items():
        I = ctx.interp()
        exp_len = length or "(%s).get_end_data(0, 0, 0)[3]" % make
        r = ctx.run(
            I,
            GEOMS
            + """
pv = p.PlanView(x0, y0, h0)
pv.add_geometry(Opaque(1))
pv.add_geometry(%(make)s)
pv.adjust_geometries()
got = pv.get_element()
one = p.PlanView(x0, y0, h0)
one.add_geometry(%(make)s)
one.adjust_geometries()
got1 = one.get_element()
x1, y1, h1 = EX(1, x0, y0, h0), EY(1, x0, y0, h0), EH(1, x0, y0, h0)
n = %(len)s
want = E('planView', None, [
  E('geometry', {'s': '0', 'x': str(x0), 'y': str(y0), 'hdg': str(h0), 'length': str(GL(1))}, [E('opaque', {'k': '1'})]),
  E('geometry', {'s': str(GL(1)), 'x': str(x1), 'y': str(y1), 'hdg': str(h1), 'length': str(n)}, [%(shape)s])])
want1 = E('planView', None, [E('geometry', {'s': '0', 'x': str(x0), 'y': str(y0), 'hdg': str(h0), 'length': str(n)}, [%(shape)s])])
"""
            % dict(make=make, len=exp_len, shape=shape),
            geom_binds(),
            "plan view with " + kind,
        )
        ctx.sample("%s -> %s" % (make, shape))
        yield I, r, kind, [("got", "want"), ("got1", "want1")]


def c01(ctx):
    settle(ctx, "C01", sc_planview(ctx))


# --------------------------------------------------------------------------------------------------
def sc_lanes(ctx):
    N = ctx.sizes(4)
    shapes = [(l, r) for l in N for r in N if l + r <= max(N) + 1]
    for nl, nr in shapes:
        I = ctx.interp()
        b = {}
        code = ["cl = p.Lane(ty, a=a, b=b, c=c, d=d, soffset=so)", "sec = p.LaneSection(s, cl)", "if hm:\n    cl.add_roadmark(Mark('c'))", "wl = []", "wr = []"]
        b.update(nums("a", "b", "c", "d", "so", "s"))
        b["ty"] = ctx.enum(I, "LaneType", "ty")
        b["hm"] = I.th.pred("marked", "c")
        W = "{'a': str(a%s), 'b': str(b%s), 'c': str(c%s), 'd': str(d%s), 'sOffset': str(so%s)}"
        for side, n, sg in (("l", nl, 1), ("r", nr, -1)):
            for i in range(1, n + 1):
                q = side + str(i)
                b.update(nums(*[x + q for x in ("a", "b", "c", "d", "so")]))
                b["ty" + q] = ctx.enum(I, "LaneType", "ty" + q)
                b["hm" + q] = I.th.pred("marked", q)
                b["pl" + q] = ctx.opt(I, "plink" + q, Sym("pl" + q))
                b["sl" + q] = ctx.opt(I, "slink" + q, Sym("sl" + q))
                code.append(
                    "x = p.Lane(ty{q}, a{q}, b{q}, c{q}, d{q}, so{q})\n"
                    "lk = []\n"
                    "if pl{q} is not None:\n    x.add_link('predecessor', pl{q})\n    lk.append(E('predecessor', {{'id': str(pl{q})}}))\n"
                    "if sl{q} is not None:\n    x.add_link('successor', sl{q})\n    lk.append(E('successor', {{'id': str(sl{q})}}))\n"
                    "k = [E('link', None, lk), E('width', {w})]\n"
                    "if hm{q}:\n    x.add_roadmark(Mark('{q}'))\n    k.append(E('mark', {{'k': '{q}'}}))\n"
                    "sec.add_{s}_lane(x)\n"
                    "w{q0}.append(E('lane', {{'id': '{id}', 'type': p.enum2str(ty{q}), 'level': 'false'}}, k))".format(
                        q=q, q0=side, s="left" if side == "l" else "right", id=sg * i, w=W % ((q,) * 5)
                    )
                )
        r = ctx.run(
            I,
            """
class Mark:
    def __init__(self, k):
        self.k = k
    def get_element(self):
        return ET.Element('mark', attrib={'k': self.k})
"""
            + "\n".join(code)
            + """
got = sec.get_element()
k = [E('link'), E('width', %s)]
if hm:
    k.append(E('mark', {'k': 'c'}))
kids = []
if wl:
    kids.append(E('left', None, wl))
kids.append(E('center', None, [E('lane', {'id': '0', 'type': p.enum2str(ty), 'level': 'false'}, k)]))
if wr:
    kids.append(E('right', None, wr))
want = E('laneSection', {'s': str(s)}, kids)
"""
            % (W % (("",) * 5)),
            b,
            "lane section with %d left and %d right lanes" % (nl, nr),
        )
        ctx.sample("LaneSection with %d left, %d right lanes, all arguments symbolic" % (nl, nr))
        yield I, r, "section %d/%d" % (nl, nr), [("got", "want")]
    for n in ctx.sizes(6):
        I = ctx.interp()
        r = ctx.run(
            I,
            "ls = p.Lanes()\nw = []\n"
            + "\n".join("ls.add_lanesection(p.LaneSection(s%d, p.Lane(a=a%d)))\nw.append(E('laneSection', {'s': str(s%d)}, [E('center', None, [E('lane', {'id': '0', 'type': 'driving', 'level': 'false'}, [E('link'), E('width', {'a': str(a%d), 'b': '0', 'c': '0', 'd': '0', 'sOffset': '0'})])])]))" % ((i,) * 4) for i in range(n))
            + "\ngot = ls.get_element()\nwant = E('lanes', None, w)",
            nums(*["s%d" % i for i in range(n)], *["a%d" % i for i in range(n)]),
            "%d lane sections" % n,
        )
        yield I, r, "%d sections" % n, [("got", "want")]
    # the road mark given last is the one a lane has; real marks with every combination of arguments
    I = ctx.interp()
    b = {}
    for q in "12":
        for k in ("width", "length", "space", "toffset"):
            b[k + q] = ctx.opt(I, k + q, T.nsym(k + q))
        b.update(nums("so" + q, "height" + q))
        b["rule" + q] = ctx.opt(I, "rule" + q, ctx.enum(I, "MarkRule", "rule" + q))
        b["lc" + q] = ctx.opt(I, "laneChange" + q, ctx.enum(I, "LaneChange", "laneChange" + q))
        b["mt" + q] = ctx.enum(I, "RoadMarkType", "type" + q)
        b["col" + q] = ctx.enum(I, "RoadMarkColor", "color" + q)
        b["wt" + q] = ctx.enum(I, "RoadMarkWeight", "weight" + q)
    mk = "p.RoadMark(mt{0}, width{0}, length{0}, space{0}, toffset{0}, so{0}, rule{0}, col{0}, wt{0}, height{0}, lc{0})"
    for how, steps in (
        ("replaced", "x.add_roadmark(m1)\nadd(x)\nx.add_roadmark(m2)\n"),
        ("replaced at once", "x.add_roadmark(m1)\nx.add_roadmark(m2)\nadd(x)\n"),
        ("replaced in the section", "add(x)\nx.add_roadmark(m1)\nx.get_element()\nx.add_roadmark(m2)\n"),
        ("single", "add(x)\nx.add_roadmark(m2)\n"),
        ("given twice", "x.add_roadmark(m2)\nadd(x)\nx.add_roadmark(m2)\n"),
    ):
        for side in ("left", "right", "center"):
            r = ctx.run(
                I,
                "m1 = %s\nm2 = %s\n" % (mk.format(1), mk.format(2))
                + "x = p.Lane(a=w)\ndef add(x):\n    %s\n" % ("p.LaneSection(0, x)" if side == "center" else "p.LaneSection(0, p.Lane()).add_%s_lane(x)" % side)
                + steps
                + "got = x.get_element()\nwant = E('lane', {'id': '%d', 'type': 'driving', 'level': 'false'}, [E('link'), E('width', {'a': str(w), 'b': '0', 'c': '0', 'd': '0', 'sOffset': '0'}), %s.get_element()])\n" % ({"left": 1, "right": -1, "center": 0}[side], mk.format(2)),
                dict(b, **nums("w")),
                "road mark of a %s lane %s" % (side, how),
            )
            yield I, r, "mark %s %s" % (side, how), [("got", "want")]


def c02(ctx):
    settle(ctx, "C02", sc_lanes(ctx))


# --------------------------------------------------------------------------------------------------
def sc_marks(ctx):
    I = ctx.interp()
    b = {k: ctx.opt(I, k, T.nsym(k)) for k in ("width", "length", "space", "toffset")}
    b.update(nums("soffset", "height"))
    b["rule"] = ctx.opt(I, "rule", ctx.enum(I, "MarkRule", "rule"))
    b["lc"] = ctx.opt(I, "laneChange", ctx.enum(I, "LaneChange", "laneChange"))
    b["mt"] = ctx.enum(I, "RoadMarkType", "type")
    b["col"] = ctx.enum(I, "RoadMarkColor", "color")
    b["wt"] = ctx.enum(I, "RoadMarkWeight", "weight")
    r = ctx.run(
        I,
        """
m = p.RoadMark(mt, width, length, space, toffset, soffset, rule, col, wt, height, lc)
got = m.get_element()
a = {'sOffset': str(soffset), 'type': p.enum2str(mt), 'weight': p.enum2str(wt), 'color': p.enum2str(col), 'height': str(height)}
if width is not None:
    a['width'] = str(width)
if lc is not None:
    a['laneChange'] = p.enum2str(lc)
kids = []
if length is not None or space is not None or toffset is not None or rule is not None:
    dl, ds = 0, 0
    if mt == p.RoadMarkType.broken:
        dl, ds = 3, 3
    if mt == p.RoadMarkType.solid:
        dl, ds = 3, 0
    w = 0.2 if width is None else width
    if width is None:
        a['~width'] = str(w)
    l = {'length': str(dl if length is None else length), 'space': str(ds if space is None else space),
         'tOffset': str(0 if toffset is None else toffset), 'width': str(w), 'sOffset': str(soffset),
         'rule': 'none' if rule is None else p.enum2str(rule)}
    kids = [E('type', {'name': p.enum2str(mt), 'width': str(w)}, [E('line', l)])]
want = E('roadMark', a, kids)
""",
        b,
        "RoadMark with every combination of given and omitted arguments",
    )
    ctx.sample("RoadMark(any type, width?, length?, space?, tOffset?, rule?, laneChange?)")
    yield I, r, "RoadMark", [("got", "want")]
    I = ctx.interp()
    r = ctx.run(
        I,
        """
m = p.RoadMark(mt)
got = m.get_element()
want = E('roadMark', {'sOffset': '0', 'type': p.enum2str(mt), 'weight': 'standard', 'color': 'standard', 'height': '0.02'})
got2 = p.RoadLine(width, length, space, toffset, soffset, rule, col).get_element()
l = {'length': str(length), 'space': str(space), 'tOffset': str(toffset), 'width': str(width), 'sOffset': str(soffset)}
if rule is not None:
    l['rule'] = p.enum2str(rule)
if col is not None:
    l['~color'] = p.enum2str(col)
want2 = E('line', l)
""",
        dict(nums("width", "length", "space", "toffset", "soffset"), mt=ctx.enum(I, "RoadMarkType", "type"), rule=ctx.opt(I, "rule", ctx.enum(I, "MarkRule", "rule")), col=ctx.opt(I, "color", ctx.enum(I, "RoadMarkColor", "color"))),
        "default road mark and road line",
    )
    yield I, r, "RoadLine", [("got", "want"), ("got2", "want2")]


def c03(ctx):
    settle(ctx, "C03", sc_marks(ctx))


# --------------------------------------------------------------------------------------------------
ROAD = """
def straight(L):
    pv = p.PlanView()
    pv.add_geometry(p.Line(L))
    pv.adjust_geometries()
    return pv
def find(el, tag):
    for c in el:
        if c.tag == tag:
            return c
    return None
"""


def link_binds(ctx, I, names):
    b = nums(L="+")
    for n in names:
        b["et" + n] = ctx.enum(I, "ElementType", "et" + n)
        b["id" + n] = Sym("id" + n)
        b["cp" + n] = ctx.opt(I, "cp" + n, ctx.enum(I, "ContactPoint", "cp" + n))
        b["dir" + n] = ctx.enum(I, "Direction", "dir" + n)
    return b


STEPS = {
    "s": ("road.add_successor(ets, ids, cps)", "E('successor', {'elementType': p.enum2str(ets), 'elementId': str(ids)} if cps is None else {'elementType': p.enum2str(ets), 'elementId': str(ids), 'contactPoint': p.enum2str(cps)})"),
    "p": ("road.add_predecessor(etp, idp, cpp)", "E('predecessor', {'elementType': p.enum2str(etp), 'elementId': str(idp)} if cpp is None else {'elementType': p.enum2str(etp), 'elementId': str(idp), 'contactPoint': p.enum2str(cpp)})"),
    "n": ("road.add_neighbor(etn, idn, dirn)", "E('neighbor', {'elementType': p.enum2str(etn), 'elementId': str(idn), 'direction': p.enum2str(dirn)})"),
    "m": ("road.add_neighbor(etm, idm, dirm)", "E('neighbor', {'elementType': p.enum2str(etm), 'elementId': str(idm), 'direction': p.enum2str(dirm)})"),
}


def orders(letters):
    import itertools

    out = []
    for k in range(len(letters) + 1):
        for o in itertools.permutations(letters, k):
            t = "".join(o)
            # the two neighbours are interchangeable
            if "m" in t and ("n" not in t or t.index("m") < t.index("n")):
                continue
            out.append(t)
    return out


def sc_links(ctx):
    for order in orders("spnm"):
        I = ctx.interp()
        code = ROAD + "road = p.Road(7, straight(L), p.Lanes())\nw = []\n"
        for k in order:
            code += "%s\nw.append(%s)\n" % STEPS[k]
        code += """
got = find(road.get_element(), 'link')
want = E('link', None, w)
q = road.links
sid, sty, scp = q.get_successor_id(), q.get_successor_type(), q.get_successor_contact_point()
pid, pty, pcp = q.get_predecessor_id(), q.get_predecessor_type(), q.get_predecessor_contact_point()
"""
        b = link_binds(ctx, I, "spnm")
        r = ctx.run(I, code, b, "road links added in the order %s" % (order or "(none)"))
        ctx.sample("road links added in the order %s" % (order or "(none)"))
        yield I, r, "road links " + order, [("got", "want")]
        if ctx.pid == "C04" and r.end is not None:
            for side, name in (("s", "successor"), ("p", "predecessor")):
                for q, var in (("id", "id"), ("ty", "et"), ("cp", "cp")):
                    want = b[var + side] if side in order else None
                    ctx.eq(I, "C04-query", "get_%s_%s %s" % (name, {"id": "id", "ty": "type", "cp": "contact_point"}[q], order), r[side + q], want, r.pc, "the answer")
    for order in ("", "s", "p", "sp", "ps", "sps", "pps", "sspp"):
        I = ctx.interp()
        code = "l = p.Lane()\np.LaneSection(0, p.Lane()).add_left_lane(l)\nw = []\n"
        b = {}
        for i, k in enumerate(order):
            n = {"s": "successor", "p": "predecessor"}[k]
            b["id%d" % i] = Sym("id%d" % i)
            code += "l.add_link('%s', id%d)\nw.append(E('%s', {'id': str(id%d)}))\n" % (n, i, n, i)
        code += "got = find(l.get_element(), 'link')\nwant = E('link', None, w)\nn = [l.links.get_successor_id(), l.links.get_predecessor_id()]\nns, np_ = [None if v is None else str(v) for v in n]\n"
        r = ctx.run(I, ROAD + code, b, "lane links added in the order %s" % (order or "(none)"))
        yield I, r, "lane links " + order, [("got", "want")]
        if ctx.pid == "C04" and r.end is not None and len(order) <= 2:
            for k, v in (("s", "ns"), ("p", "np_")):
                ctx.eq(I, "C04-query", "lane %s %s" % (k, order), r[v], T.sstr([T.StrOf(b["id%d" % order.index(k)])]) if k in order else None, r.pc, "the link id")


def c04(ctx):
    settle(ctx, "C04", sc_links(ctx))


# --------------------------------------------------------------------------------------------------
def sc_junctions(ctx):
    N = ctx.sizes(4)
    for n in N:
        I = ctx.interp()
        b = {"jn": text("jname"), "ji": Sym("jid")}
        code = "j = p.Junction(jn, ji)\nw = []\n"
        for i in range(n):
            for k in ("in", "cn", "id"):
                b["%s%d" % (k, i)] = Sym("%s%d" % (k, i))
            b["cp%d" % i] = ctx.enum(I, "ContactPoint", "cp%d" % i)
            # explicit ids are only distinguishable from automatic ones when they are concrete
            auto = i % 2
            m = (i + n) % (len(N))
            code += "c = p.Connection(in%d, cn%d, cp%d%s)\nl = []\n" % (i, i, i, "" if auto else ", 'x%d'" % i)
            for k in range(m):
                b["f%d_%d" % (i, k)], b["t%d_%d" % (i, k)] = Sym("f%d_%d" % (i, k)), Sym("t%d_%d" % (i, k))
                code += "c.add_lanelink(f{0}_{1}, t{0}_{1})\nl.append(E('laneLink', {{'from': str(f{0}_{1}), 'to': str(t{0}_{1})}}))\n".format(i, k)
            code += "j.add_connection(c)\nw.append(E('connection', {'incomingRoad': str(in%d), 'connectingRoad': str(cn%d), 'contactPoint': p.enum2str(cp%d), 'id': str(c.id)}, l))\n" % (i, i, i)
        code += "got = j.get_element()\nwant = E('junction', {'name': jn, 'id': str(ji)}, w)\n"
        r = ctx.run(I, code, b, "junction with %d connections" % n)
        ctx.sample("Junction with %d connections of 0..%d lane links" % (n, len(N) - 1))
        yield I, r, "junction %d" % n, [("got", "want")]
    I = ctx.interp()
    b = {"a": Sym("a"), "b": Sym("b"), "i": Sym("i"), "cp": ctx.enum(I, "ContactPoint", "cp")}
    r = ctx.run(I, "got = p.Connection(a, b, cp, i).get_element()\nwant = E('connection', {'incomingRoad': str(a), 'connectingRoad': str(b), 'contactPoint': p.enum2str(cp), 'id': str(i)})\n", b, "connection with a given id")
    yield I, r, "connection", [("got", "want")]


def c05(ctx):
    settle(ctx, "C05", sc_junctions(ctx))


# --------------------------------------------------------------------------------------------------
COMMON = """
def common(s, t, subtype, dynamic, zo, orient, pitch, roll, width, height, name, ty, ident):
    a = {'id': ident, 's': str(s), 't': str(t), 'dynamic': p.enum2str(dynamic), 'zOffset': str(zo)}
    if subtype is not None:
        a['subtype'] = str(subtype)
    for k, v in (('pitch', pitch), ('roll', roll)):
        if v != 0:
            a[k] = str(v)
        else:
            a['~' + k] = str(v)
    if width is not None:
        a['width'] = str(width)
    if height is not None:
        a['height'] = str(height)
    if name is not None:
        a['name'] = str(name)
    a['type'] = p.enum2str(ty) if isinstance(ty, p.ObjectType) else str(ty)
    if orient == p.Orientation.positive:
        a['orientation'] = '+'
    elif orient == p.Orientation.negative:
        a['orientation'] = '-'
    else:
        a['orientation'] = 'none'
    return a
road = p.Road(7, straight(L), p.Lanes())
"""


def so_binds(ctx, I):
    b = nums("s", "t", "zo", "pitch", "roll", "ho", "hdg", L="+")
    for k in ("width", "height", "length", "radius", "vl", "value"):
        b[k] = ctx.opt(I, k, T.nsym(k))
    for k in ("name", "subtype", "unit"):
        b[k] = ctx.opt(I, k, Sym(k))
    b["dynamic"] = ctx.enum(I, "Dynamic", "dynamic")
    b["orient"] = ctx.enum(I, "Orientation", "orient")
    b["country"], b["ty"], b["ident"] = text("country"), Sym("ty"), Sym("ident")
    return b


def sc_signals(ctx):
    I = ctx.interp()
    r = ctx.run(
        I,
        ROAD
        + COMMON
        + """
x = p.Signal(s, t, country, ty, subtype, ident, name, dynamic, value, unit, zo, orient, ho, pitch, roll, height, width)
road.add_signal(x)
got = x.get_element()
a = common(s, t, subtype, dynamic, zo, orient, pitch, roll, width, height, name, ty, str(ident))
a['country'] = country.upper()
if ho != 0:
    a['hOffset'] = str(ho)
else:
    a['~hOffset'] = str(ho)
if value is not None:
    a['value'] = str(value)
if unit is not None:
    if value is not None:
        a['unit'] = str(unit)
    else:
        a['~unit'] = str(unit)
want = E('signal', a)
y = p.Signal(s, t, country, ty)
road.add_signal(y)
got2 = y.get_element()
a = common(s, t, '-1', p.Dynamic.no, 1.5, p.Orientation.positive, 0, 0, None, None, None, ty, str(y.id))
a['country'] = country.upper()
a['~hOffset'] = '0'
want2 = E('signal', a)
""",
        so_binds(ctx, I),
        "Signal with every combination of given and omitted arguments",
    )
    ctx.sample("Signal(s, t, country, type, subtype?, id, name?, dynamic, value?, unit?, zOffset, orientation, hOffset, pitch, roll, height?, width?)")
    yield I, r, "Signal", [("got", "want"), ("got2", "want2")]


def sc_objects(ctx):
    I = ctx.interp()
    b = so_binds(ctx, I)
    b["ty"] = T.ite(I.th.pred("free-text-type", "ty"), Sym("ty"), ctx.enum(I, "ObjectType", "ty"))
    r = ctx.run(
        I,
        ROAD
        + COMMON
        + """
x = p.Object(s, t, ty, subtype, ident, name, dynamic, zo, orient, hdg, pitch, roll, width, length, height, radius, vl)
road.add_object(x)
got = x.get_element()
a = common(s, t, subtype, dynamic, zo, orient, pitch, roll, None, height, name, ty, str(ident))
a['hdg'] = str(hdg)
if vl is not None:
    a['validLength'] = str(vl)
if radius is not None:
    a['radius'] = str(radius)
elif width is not None or length is not None:
    a['width'] = '0' if width is None else str(width)
    a['length'] = '0' if length is None else str(length)
want = E('object', a)
y = p.Object(s, t)
road.add_object(y)
got2 = y.get_element()
a = common(s, t, None, p.Dynamic.no, 0, p.Orientation.none, 0, 0, None, None, None, p.ObjectType.none, str(y.id))
a['hdg'] = '0'
want2 = E('object', a)
""",
        b,
        "Object with every combination of given and omitted arguments",
    )
    ctx.sample("Object(s, t, type, subtype?, id, name?, dynamic, zOffset, orientation, hdg, pitch, roll, width?, length?, height?, radius?, validLength?)")
    yield I, r, "Object", [("got", "want"), ("got2", "want2")]


def sc_repeated(ctx):
    """the attributes of the object itself when it is repeated, before and after"""
    for n in (1, 2):
        I = ctx.interp()
        b = so_binds(ctx, I)
        b["ty"] = T.ite(I.th.pred("free-text-type", "ty"), Sym("ty"), ctx.enum(I, "ObjectType", "ty"))
        b.update(nums("rl", "rd", "rv", "ov"))
        code = (
            ROAD
            + COMMON
            + """
x = p.Object(s, t, ty, subtype, ident, name, dynamic, zo, orient, hdg, pitch, roll, width, length, height, radius, vl)
"""
            + "x.repeat(rl, rd)\n" * (n - 1)
            + "x.repeat(rl, rd, rv, rv, ov, rv, rv, ov, rv, rv, ov, rv, rv, ov, rv)\nroad.add_object(x)\n"
            + """
got = x.get_element()
a = common(s, t, subtype, dynamic, zo, orient, pitch, roll, None, height, name, ty, str(ident))
a['hdg'] = str(hdg)
if vl is not None:
    a['validLength'] = str(vl)
if radius is not None:
    a['radius'] = str(radius)
elif width is not None or length is not None:
    a['width'] = '0' if width is None else str(width)
    a['length'] = '0' if length is None else str(length)
want = E('object', a, [E('repeat', {'?*': ''}) for i in range(%d)])
""" % n
        )
        r = ctx.run(I, code, b, "Object with %d repeats and every combination of given and omitted arguments" % n)
        yield I, r, "Object with %d repeats" % n, [("got", "want")]


def c06(ctx):
    settle(ctx, "C06", sc_repeated(ctx))
    settle(ctx, "C06", sc_signals(ctx))
    settle(ctx, "C06", sc_objects(ctx))


# --------------------------------------------------------------------------------------------------
REPS = ("sStart", "tStart", "tEnd", "heightStart", "heightEnd", "zOffsetStart", "zOffsetEnd", "widthStart", "widthEnd", "lengthStart", "lengthEnd", "radiusStart", "radiusEnd")


def sc_repeats(ctx):
    head = """
x = p.Object(s, t, id='a', zOffset=zo, height=height)
w = []
def rep(rl, rd, sStart, tStart, tEnd, heightStart, heightEnd, zOffsetStart, zOffsetEnd, widthStart, widthEnd, lengthStart, lengthEnd, radiusStart, radiusEnd):
    a = {'length': str(rl), 'distance': str(rd)}
    a['s'] = str(s if sStart is None else sStart)
    a['tStart'] = str(t if tStart is None else tStart)
    a['tEnd'] = str(t if tEnd is None else tEnd)
    a['zOffsetStart'] = str(zo if zOffsetStart is None else zOffsetStart)
    a['zOffsetEnd'] = str(zo if zOffsetEnd is None else zOffsetEnd)
    for k, v in (('heightStart', heightStart), ('heightEnd', heightEnd)):
        if v is None:
            v = height
        if v is not None:
            a[k] = str(v)
    for k, v in (('widthStart', widthStart), ('widthEnd', widthEnd), ('lengthStart', lengthStart), ('lengthEnd', lengthEnd), ('radiusStart', radiusStart), ('radiusEnd', radiusEnd)):
        if v is not None:
            a[k] = str(v)
    return E('repeat', a)
"""
    for n in ctx.sizes(3):
        I = ctx.interp()
        b = nums("s", "t", "zo")
        b["height"] = ctx.opt(I, "height", T.nsym("height"))
        code = head
        for i in range(n):
            b.update(nums("rl%d" % i, "rd%d" % i))
            for k in REPS:
                b["%s%d" % (k, i)] = ctx.opt(I, "%s%d" % (k, i), T.nsym("%s%d" % (k, i)))
            args = "rl%d, rd%d, " % (i, i) + ", ".join("%s%d" % (k, i) for k in REPS)
            code += "x.repeat(%s)\nw.append(rep(%s))\n" % (args, args)
        code += """
got = x.get_element()
a = {'id': str(x.id), 's': str(s), 't': str(t), 'dynamic': 'no', 'zOffset': str(zo), 'type': 'none', 'orientation': 'none', 'hdg': '0', '~pitch': '0', '~roll': '0'}
if height is not None:
    a['height'] = str(height)
want = E('object', a, w)
"""
        r = ctx.run(I, code, b, "object with %d repeats" % n)
        ctx.sample("Object.repeat with every optional argument given or omitted, %d repeats" % n)
        yield I, r, "%d repeats" % n, [("got", "want")]


def c07(ctx):
    settle(ctx, "C07", sc_repeats(ctx))


# --------------------------------------------------------------------------------------------------
DOC = """
def sig(x, s):
    return E('signal', {'id': str(x.id), 's': str(s), 't': '1', 'subtype': '-1', 'dynamic': 'no', 'zOffset': '1.5', 'country': 'SE', 'type': 'a', 'orientation': '+', '~pitch': '0', '~roll': '0', '~hOffset': '0'})
def obj(x, s):
    return E('object', {'id': str(x.id), 's': str(s), 't': '1', 'dynamic': 'no', 'zOffset': '0', 'type': 'none', 'orientation': 'none', 'hdg': '0', '~pitch': '0', '~roll': '0'})
def rd(road, rid, rt, name, rule, L, links, sg, ob, first):
    a = {'id': str(rid), 'junction': str(rt), 'length': str(L)}
    if name is not None:
        a['name' if name else '~name'] = name
    if rule is not None:
        a['rule' if rule else '~rule'] = rule
    k = [E('link', None, links),
         E('planView', None, [E('geometry', {'s': '0', 'x': '0', 'y': '0', 'hdg': '0', 'length': str(L)}, [E('line')])]),
         E('lanes', None, [E('laneSection', {'s': '0'}, [E('center', None, [E('lane', {'id': '0', 'type': 'driving', 'level': 'false'}, [E('link'), E('width', {'a': '0', 'b': '0', 'c': '0', 'd': '0', 'sOffset': '0'})])])])])]
    gs = [E('signals', None, sg)] if sg else []
    go = [E('objects', None, ob)] if ob else []
    return E('road', a, k + gs + go if first else k + go + gs)
def lanes():
    ls = p.Lanes()
    ls.add_lanesection(p.LaneSection(0, p.Lane()))
    return ls
def jn(name, i):
    return E('junction', {'name': name, 'id': str(i)})
od = p.OpenDrive(title)
"""


def sc_document(ctx):
    N = ctx.sizes(4)
    # (number of roads, junctions, signals per road, objects per road, how they are added)
    cases = [(n, m, 0, 0, "single") for n in N for m in N if n + m <= max(N)]
    cases += [(1, 0, k, l, how) for k in N for l in N if 0 < k + l <= max(N) for how in ("single", "list")]
    cases += [(2, 2, 2, 2, "mixed"), (3, 1, 1, 2, "mixed"), (2, 1, 1, 0, "again"), (3, 0, 0, 1, "again")]
    for n, m, ns, no, how in cases:
        I = ctx.interp()
        b = {"title": text("title")}
        code = ROAD + DOC + "w1 = []\nw2 = []\nwj = []\n"
        adds = []
        for i in range(n):
            b["L%d" % i] = T.nsym("L%d" % i, "+")
            b["rt%d" % i] = ctx.opt(I, "in-junction%d" % i, T.nsym("rt%d" % i))
            b["nm%d" % i] = ctx.opt(I, "name%d" % i, text("nm%d" % i))
            b["rl%d" % i] = ctx.opt(I, "rule%d" % i, text("rl%d" % i))
            rid = repr((10 - i) if i % 2 == 0 else "r%d" % i)
            code += "rt = -1 if rt{0} is None else rt{0}\nr{0} = p.Road({1}, straight(L{0}), lanes(), rt, nm{0}, rl{0})\nsg = []\nob = []\nlk = []\n".format(i, rid)
            code += "r%d.add_successor(p.ElementType.junction, 77)\nlk.append(E('successor', {'elementType': 'junction', 'elementId': '77'}))\n" % i
            for cls, cnt, add, lst, fn in (("Signal", ns, "add_signal", "sg", "sig"), ("Object", no, "add_object", "ob", "obj")):
                mk = "p.Signal(s{0}, 1, 'se', 'a')" if cls == "Signal" else "p.Object(s{0}, 1)"
                names = []
                for k in range(cnt):
                    q = "%s%d_%d" % (cls[0], i, k)
                    b["s" + q] = T.nsym("s" + q)
                    names.append(q)
                    code += "x%s = %s\n" % (q, mk.format(q))
                if how == "list" and cnt:
                    code += "r%d.%s([%s])\n" % (i, add, ", ".join("x" + q for q in names))
                elif how == "mixed" and cnt:
                    code += "r%d.%s(x%s)\n" % (i, add, names[0])
                    code += "r%d.%s([%s])\n" % (i, add, ", ".join("x" + q for q in names[1:]))
                else:
                    for q in names:
                        code += "r%d.%s(x%s)\n" % (i, add, q)
                for q in names:
                    code += "%s.append(%s(x%s, s%s))\n" % (lst, fn, q, q)
            code += "w1.append(rd(r{0}, {1}, rt, nm{0}, rl{0}, L{0}, lk, sg, ob, True))\nw2.append(rd(r{0}, {1}, rt, nm{0}, rl{0}, L{0}, lk, sg, ob, False))\n".format(i, rid)
            adds.append("od.add_road(r%d)\n" % i)
        js = []
        for i in range(m):
            b["jn%d" % i], b["ji%d" % i] = text("jn%d" % i), Sym("ji%d" % i)
            js.append("od.add_junction(p.Junction(jn{0}, ji{0}))\nwj.append(jn(jn{0}, ji{0}))\n".format(i))
        # interleave roads and junctions
        while adds or js:
            for q in (js, adds) if how == "mixed" else (adds, js):
                if q:
                    code += q.pop(0)
                    if how == "again" and q is adds and len(adds) < n - 1:
                        code += "od.add_road(r0)\n"  # a road that is in the network stays where it is
        code += "got = od.get_element()\nh = E('header', {'name': title, 'revMajor': '1', 'revMinor': '5', '?date': '', '?*': ''})\nwant = E('OpenDRIVE', None, [h] + w1 + wj)\nwant2 = E('OpenDRIVE', None, [h] + w2 + wj)\n"
        label = "%d roads, %d junctions, %d signals and %d objects per road (%s)" % (n, m, ns, no, how)
        r = ctx.run(I, code, b, label)
        ctx.sample("OpenDrive with " + label)
        yield I, r, "document " + label, [("got", "want", "want2")]


def sc_histories(ctx):
    """signals and objects added one by one and in lists, in every order"""
    import itertools

    ops = {"s": ("add_signal", "Signal", 1), "S": ("add_signal", "Signal", 2), "o": ("add_object", "Object", 1), "O": ("add_object", "Object", 2), "e": ("add_signal", "Signal", 0), "f": ("add_object", "Object", 0)}
    N = 4 if ctx.deep else 3
    hists = ["".join(h) for k in range(1, N + 1) for h in itertools.product("sSoO", repeat=k)] + ["e", "f", "se", "of", "esSe", "foOf", "sef", "ofeSO"]
    # members that are added once more: x, y singly, X, Y in a list next to a new one, Z, W twice in a list
    hists += ["sx", "sX", "SxsX", "oy", "oY", "OyoY", "sZ", "oW", "ZsX", "WoY", "sXx", "oYy", "sxoy", "SXOY"]
    again = {"x": ("s", "{0}"), "X": ("s", "[{0}, {1}]"), "Z": ("s", "[{1}, {1}]"), "y": ("o", "{0}"), "Y": ("o", "[{0}, {1}]"), "W": ("o", "[{1}, {1}]")}
    for group in range(0, len(hists), 12):
        I = ctx.interp()
        b = {"title": text("title"), "L": T.nsym("L", "+")}
        code, pairs = ROAD + DOC, []
        for h in hists[group : group + 12]:
            code += "r = p.Road(1, straight(L), lanes())\nsg = []\nob = []\n"
            first, late = {}, ""
            for n, k in enumerate(h):
                if k in again:
                    kind, form = again[k]
                    add, cls, _ = ops[kind]
                    q = "q%d" % (2 * n)
                    b[q] = T.nsym(q)
                    code += "z%d = %s\n" % (n, ("p.Signal(%s, 1, 'se', 'a')" if kind == "s" else "p.Object(%s, 1)") % q)
                    code += "r.%s(%s)\n" % (add, form.format(first.get(kind, ("", ""))[0], "z%d" % n))
                    for i in (form.count("{0}") and [0] or []) + [1] * form.count("{1}"):
                        v, q2 = first[kind] if i == 0 else ("z%d" % n, q)
                        late += "%s.append(%s(%s, %s))\n" % (("sg", "sig") + (v, q2) if kind == "s" else ("ob", "obj") + (v, q2))
                    continue
                add, cls, cnt = ops[k]
                mk = "p.Signal(q%d, 1, 'se', 'a')" if cls == "Signal" else "p.Object(q%d, 1)"
                names = ["v%d_%d" % (n, i) for i in range(max(cnt, 0))]
                for i, v in enumerate(names):
                    b["q%d" % (2 * n + i)] = T.nsym("q%d" % (2 * n + i))
                    code += "%s = %s\n" % (v, mk % (2 * n + i))
                code += "r.%s(%s)\n" % (add, names[0] if k in "so" else "[%s]" % ", ".join(names))
                for i, v in enumerate(names):
                    first.setdefault(k.lower(), (v, "q%d" % (2 * n + i)))
                    late += "%s.append(%s(%s, q%d))\n" % (("sg", "sig") + (v, 2 * n + i) if cls == "Signal" else ("ob", "obj") + (v, 2 * n + i))
            # what is written is what the members are now
            code += late
            j = len(pairs)
            code += "got{0} = r.get_element()\nwa{0} = rd(r, 1, -1, None, None, L, [], sg, ob, True)\nwb{0} = rd(r, 1, -1, None, None, L, [], sg, ob, False)\n".format(j)
            pairs.append(("got%d" % j, "wa%d" % j, "wb%d" % j))
        label = "signals and objects added as " + ", ".join(hists[group : group + 12])
        r = ctx.run(I, code, b, label)
        yield I, r, label, pairs
    ctx.sample("%d histories of add_signal and add_object with single members and lists" % len(hists))


def c08(ctx):
    settle(ctx, "C08", sc_document(ctx))
    settle(ctx, "C08", sc_histories(ctx))


# --------------------------------------------------------------------------------------------------
def sc_positioned(ctx):
    """roads positioned by the library, including plan views positioned from their end"""
    for fe in (False, True):
        for n in (1, 2, 3):
            I = ctx.interp()
            b = dict(geom_binds(), fe=fe)
            code = GEOMS + "pv = p.PlanView(%s)\n" % ("x0, y0, h0" if not fe else "")
            for i in range(n):
                code += "pv.add_geometry(%s)\n" % ("Opaque(%d)" % i if i != 1 else "p.Line(L)")
            if fe:
                code += "pv.set_start_point(x0, y0, h0)\n"
            code += "pv.adjust_geometries(%s)\ngot = pv.get_element()\n" % fe
            r = ctx.run(I, code, b, "plan view of %d geometries positioned from its %s" % (n, "end" if fe else "start"))
            yield I, r, "planview %d %s" % (n, fe), [("got",)]


def sc_default_document(ctx):
    """a network built with as few arguments as possible, positioned and linked"""
    I = ctx.interp()
    r = ctx.run(
        I,
        """
a, b, c = p.create_straight_road(1), p.create_straight_road(2), p.create_straight_road(3)
a.add_successor(p.ElementType.road, 2, p.ContactPoint.start)
b.add_predecessor(p.ElementType.road, 1, p.ContactPoint.end)
b.add_successor(p.ElementType.road, 3, p.ContactPoint.start)
c.add_predecessor(p.ElementType.road, 2, p.ContactPoint.end)
a.add_signal(p.Signal(s, t, country, ty))
o = p.Object(s, t)
o.repeat(rl, rd)
b.add_object(o)
od = p.OpenDrive(title)
od.add_road(a)
od.add_road(b)
od.add_road(c)
j = p.Junction(title, 5)
k = p.Connection(1, 2, p.ContactPoint.start)
k.add_lanelink(-1, -1)
j.add_connection(k)
od.add_junction(j)
od.adjust_roads_and_lanes()
b.add_object_roadside(p.Object(s, t), rd)
got = od.get_element()
dep = p.Dependency('a', 'b').get_element()
""",
        dict(nums("s", "t", "rl", "rd"), country=text("country"), ty=text("ty"), title=text("title")),
        "network with default arguments",
    )
    yield I, r, "default network", [("got",), ("dep",)]


def c10(ctx):
    scs = [sc_planview, sc_lanes, sc_marks, sc_links, sc_junctions, sc_signals, sc_objects, sc_repeats, sc_document, sc_positioned, sc_default_document]
    for sc in scs:
        for I, r, label, pairs in sc(ctx):
            # whether the call may raise is for the other properties; here: whatever is written is text
            if r.end is not None:
                for got, *_ in pairs:
                    ctx.leaks(I, "C10-text", label, r[got], r.pc)
            ctx.done(I)
