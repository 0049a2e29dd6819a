"""C33, C35, C37: what the generators build, against roads built by hand and against the requested layout."""
import itertools

from .. import terms as T
from ..harness import decorated
from ..terms import b_and
from .heap import HOOKS, same_xml, unchanged
from .net import Pool, NET
from .serial import nums

PRE = NET + """
def by_hand(rid, geoms, left, right, width, junction, centre, inner, outer):
    pv = p.PlanView()
    for g in geoms:
        pv.add_geometry(g)
    c = p.Lane(a=0)
    c.add_roadmark(centre)
    sec = p.LaneSection(0, c)
    for n, add in ((left, sec.add_left_lane), (right, sec.add_right_lane)):
        for i in range(n):
            l = p.Lane(a=width)
            l.add_roadmark(outer if i == n - 1 else inner)
            add(l)
    ls = p.Lanes()
    ls.add_lanesection(sec)
    return p.Road(rid, pv, ls, road_type=junction)
def finished(r):
    od = p.OpenDrive('n')
    od.add_road(r)
    od.adjust_startpoints()
    return r.get_element()
SOLID, BROKEN = p.STD_ROADMARK_SOLID, p.STD_ROADMARK_BROKEN
def cross(r):
    # lanes written: per section (start, ((side, lane id, widths, kinds of mark), ...))
    out = []
    for sec in r.lanes.get_element():
        if sec.tag != 'laneSection':
            continue
        got = []
        for side in sec:
            for lane in side:
                got.append((side.tag, lane.get('id'), tuple([(float(w.get('sOffset')), float(w.get('a')), float(w.get('b')), float(w.get('c')), float(w.get('d'))) for w in lane if w.tag == 'width' and side.tag != 'center']), tuple([m.get('type') for m in lane if m.tag == 'roadMark'])))
        out.append((float(sec.get('s')), tuple(got)))
    return tuple(out)
def wanted(left, right, width, centre, inner, outer):
    got = [('left', str(i), ((0, width, 0, 0, 0),), (outer if i == left else inner,)) for i in range(left, 0, -1)]
    got += [('center', '0', (), (centre,))]
    got += [('right', str(-i), ((0, width, 0, 0, 0),), (outer if i == right else inner,)) for i in range(1, right + 1)]
    return ((0, tuple(sorted(got))),)
def ordered(c):
    return tuple([(s, tuple(sorted(g))) for s, g in c])
def membership(r):
    a = r.get_attributes()
    return a['id'], a['junction'], str(r.id)
"""

GEOMS = {
    "line": "p.Line(L)",
    "arc by length": "p.Arc(c, length=L)",
    "arc by angle": "p.Arc(c, angle=an)",
    "spiral by length": "p.Spiral(c0, c0 + d, length=L)",
    "spiral by angle": "p.Spiral(c0, c0 + d, angle=an)",
    "spiral by rate": "p.Spiral(c0, c0 + d, cdot=d)",
    "polynomial": "p.ParamPoly3(au, bu, cu, du, av, bv, cv, dv)",
    "polynomial by length": "p.ParamPoly3(au, bu, cu, du, av, bv, cv, dv, prange='arcLength', length=L)",
}


def binds():
    b = nums("c0", "au", "bu", "cu", "du", "av", "bv", "cv", "dv", "w", "rid", "jid", "mw", "ms", L="+", c="+", an="+", d="+", c0="+")
    b.update(HOOKS)
    return b


def same_planview(ctx, I, rule, label, run, a, b):
    return same_xml(ctx, I, rule, label, run, a, run, b)


def c33(ctx):
    ctx.parallel([c33_lanes, c33_geometries, c33_marks, c33_straight, c33_cloth, c33_apart])


def compare(ctx, I, rule, label, run, doc=False):
    if not ctx.no_raise(run, rule + "-accepts", label):
        return
    ctx.eq(I, rule, label + ": lanes (side, id, widths, marks)", run["lanes"], run["wlanes"], run.pc, "the cross-section")
    ctx.eq(I, rule, label + ": id and junction", run["who"], run["wwho"], run.pc, "the membership")
    if doc:
        same_xml(ctx, I, rule, label, run, "doc", run, "wdoc")


def cross_code(call, left, right, width, rid, jid, centre, inner, outer, geoms=None):
    code = PRE + "r = %s\nlanes, wlanes = ordered(cross(r)), wanted(%d, %d, %s, %r, %r, %r)\nwho, wwho = membership(r), (str(%s), str(%s), str(%s))\n" % (call, left, right, width, centre, inner, outer, rid, jid, rid)
    return code


def c33_lanes(ctx):
    pool = Pool(ctx)
    b = binds()
    for l, r in itertools.product(range(8), repeat=2):
        I = pool.get()
        code = cross_code("p.create_road(p.Line(L), rid, left_lanes=%d, right_lanes=%d, lane_width=w, road_type=jid)" % (l, r), l, r, "w", "rid", "jid", "solid", "broken", "solid")
        code += "doc = finished(r)\nwdoc = finished(by_hand(rid, [p.Line(L)], %d, %d, w, jid, SOLID, BROKEN, SOLID))\n" % (l, r)
        label = "create_road with %d left and %d right lanes" % (l, r)
        compare(ctx, I, "C33-lanes", label, ctx.run(I, code, b, label), True)
    for args, l, r, w, jid in (("", 1, 1, "3", "-1"), (", 2", 2, 1, "3", "-1"), (", 2, 3", 2, 3, "3", "-1"), (", 1, 2, jid", 1, 2, "3", "jid"), (", lane_width=w", 1, 1, "w", "-1"), (", right_lanes=0", 1, 0, "3", "-1"), (", 2, 2, 1, SOLID, w", 2, 2, "w", "1")):
        I = pool.get()
        code = cross_code("p.create_road([p.Line(L)], rid%s)" % args, l, r, w, "rid", jid, "solid", "broken", "solid")
        label = "create_road(..., rid%s)" % args
        compare(ctx, I, "C33-lanes", label, ctx.run(I, code, b, label))
    for rid in ("'a b'", "7", "0", "'1'"):
        I = pool.get()
        code = cross_code("p.create_road([p.Line(L)], %s, road_type=%s)" % (rid, rid), 1, 1, "3", rid, rid, "solid", "broken", "solid")
        compare(ctx, I, "C33-lanes", "id " + rid, ctx.run(I, code, b, "id " + rid))
    pool.close()


def c33_geometries(ctx):
    pool = Pool(ctx)
    b = binds()
    for n, g in GEOMS.items():
        for form in ("%s", "[%s]"):
            I = pool.get()
            code = PRE + "r = p.create_road(%s, rid, 1, 2)\ndoc = finished(r)\nwdoc = finished(by_hand(rid, [%s], 1, 2, 3, -1, SOLID, BROKEN, SOLID))\n" % (form % g, g)
            label = "create_road from %s%s" % ("a list with " if "[" in form else "", n)
            run = ctx.run(I, code, b, label)
            if ctx.no_raise(run, "C33-geometries-accepts", label):
                same_xml(ctx, I, "C33-geometries", label, run, "doc", run, "wdoc")
    # lists: opaque geometries, so that any kind in any order is covered; and each pair of kinds
    for n in ctx.sizes(5)[1:]:
        I = pool.get()
        gs = ", ".join("Opaque(%d)" % (7 * i % 5) for i in range(n))
        code = PRE + "gs = [%s]\nr = p.create_road(gs, rid, 1, 2)\ndoc = finished(r)\nwdoc = finished(by_hand(rid, [%s], 1, 2, 3, -1, SOLID, BROKEN, SOLID))\nn = len(gs)\n" % (gs, gs)
        from .net import UFS

        run = ctx.run(I, code, dict(b, **UFS), "create_road from %d geometries" % n)
        if ctx.no_raise(run, "C33-order-accepts", "%d geometries" % n):
            same_xml(ctx, I, "C33-order", "create_road from %d geometries" % n, run, "doc", run, "wdoc")
            ctx.eq(I, "C33-order", "create_road from %d geometries: the list handed in" % n, run["n"], n, run.pc, "its length")
    for (n1, g1), (n2, g2) in itertools.permutations(GEOMS.items(), 2):
        if not ctx.deep and not ("line" in (n1, n2)):
            continue
        I = pool.get()
        code = PRE + "doc = finished(p.create_road([%s, %s], rid, 1, 2))\nwdoc = finished(by_hand(rid, [%s, %s], 1, 2, 3, -1, SOLID, BROKEN, SOLID))\n" % (g1, g2, g1, g2)
        label = "create_road from %s and %s" % (n1, n2)
        run = ctx.run(I, code, b, label)
        if ctx.no_raise(run, "C33-geometries-accepts", label):
            same_xml(ctx, I, "C33-geometries", label, run, "doc", run, "wdoc")
    pool.close()


def c33_marks(ctx):
    pool = Pool(ctx)
    b = binds()
    mark = "p.RoadMark(p.RoadMarkType.%s, mw, 3, 6, soffset=ms)"
    for kind in ("solid", "broken", "none", "botts_dots", "curb"):
        for call in ("p.create_road([p.Line(L)], rid, 2, 1, center_road_mark=%s)", "p.create_road(p.Line(L), rid, 2, 1, -1, %s)"):
            I = pool.get()
            m = mark % kind
            code = PRE + "doc = finished(%s)\nwdoc = finished(by_hand(rid, [p.Line(L)], 2, 1, 3, -1, %s, BROKEN, SOLID))\n" % (call % m, m)
            label = "create_road with %s centre mark" % kind
            run = ctx.run(I, code, b, label)
            if ctx.no_raise(run, "C33-marks-accepts", label):
                same_xml(ctx, I, "C33-marks", label, run, "doc", run, "wdoc")
    for l, r in itertools.product(ctx.sizes(3), repeat=2):
        for extra in ("", ", jid"):
            I = pool.get()
            m = mark % "broken"
            code = PRE + "m = %s\ndoc = finished(p.create_road([p.Line(L)], rid, %d, %d%s, center_road_mark=m))\nwdoc = finished(by_hand(rid, [p.Line(L)], %d, %d, 3, %s, m, BROKEN, SOLID))\n" % (m, l, r, extra, l, r, "jid" if extra else "-1")
            label = "create_road with %d left and %d right lanes%s and an own centre mark" % (l, r, " in a junction" if extra else "")
            run = ctx.run(I, code, b, label)
            if ctx.no_raise(run, "C33-marks-accepts", label):
                same_xml(ctx, I, "C33-marks", label, run, "doc", run, "wdoc")
    for args, w, m in (("", "3", "BROKEN"), ("w", "w", "BROKEN"), ("w, SOLID", "w", "SOLID"), ("rm=SOLID", "3", "SOLID"), ("offset=w", "w", "BROKEN")):
        I = pool.get()
        code = PRE + "def lane(x):\n    s = p.LaneSection(0, p.Lane())\n    s.add_left_lane(x)\n    return s.get_element()\ny = p.Lane(a=%s)\ny.add_roadmark(%s)\ndoc, wdoc = lane(p.standard_lane(%s)), lane(y)\n" % (w, m, args)
        run = ctx.run(I, code, b, "standard_lane(%s)" % args)
        if ctx.no_raise(run, "C33-marks-accepts", "standard_lane(%s)" % args):
            same_xml(ctx, I, "C33-marks", "standard_lane(%s)" % args, run, "doc", run, "wdoc")
    pool.close()


def c33_straight(ctx):
    pool = Pool(ctx)
    b = binds()
    for n in ctx.sizes(6):
        I = pool.get()
        code = cross_code("p.create_straight_road(rid, L, jid, %d, w)" % n, n, n, "w", "rid", "jid", "broken", "broken", "broken")
        label = "create_straight_road with %d lanes per side" % n
        run = ctx.run(I, code, b, label)
        compare(ctx, I, "C33-straight", label, run)
        doc_of(ctx, I, label, "p.create_straight_road(rid, L, jid, %d, w)" % n, "[p.Line(L)]", n, b)
    for args, L, jid, n, w in (("", "100", "-1", 1, "3"), (", L", "L", "-1", 1, "3"), (", length=L, n_lanes=2", "L", "-1", 2, "3"), (", lane_offset=w", "100", "-1", 1, "w"), (", junction=jid", "100", "jid", 1, "3"), (", 0.5, 0, 1, 0", "0.5", "0", 1, "0")):
        I = pool.get()
        label = "create_straight_road(rid%s)" % args
        compare(ctx, I, "C33-straight", label, ctx.run(I, cross_code("p.create_straight_road(rid%s)" % args, n, n, w, "rid", jid, "broken", "broken", "broken"), b, label))
        doc_of(ctx, I, label, "p.create_straight_road(rid%s)" % args, "[p.Line(%s)]" % L, n, b)
    pool.close()


def doc_of(ctx, I, label, call, geoms, n, b):
    code = PRE + "def plan(r):\n    finished(r)\n    return r.planview.get_element()\ndoc, wdoc = plan(%s), plan(by_hand(rid, %s, 1, 1, 3, -1, BROKEN, BROKEN, BROKEN))\n" % (call, geoms)
    run = ctx.run(I, code, b, label)
    if ctx.no_raise(run, "C33-planview-accepts", label):
        same_xml(ctx, I, "C33-planview", label + ": plan view", run, "doc", run, "wdoc")


def c33_cloth(ctx):
    pool = Pool(ctx)
    b = dict(binds(), **nums("cs", k="+", aa="+", ca="+"))
    for n in ctx.sizes(6):
        I = pool.get()
        label = "create_cloth_arc_cloth with %d lanes per side" % n
        compare(ctx, I, "C33-cloth", label, ctx.run(I, cross_code("p.create_cloth_arc_cloth(k, aa, ca, rid, jid, n_lanes=%d, lane_offset=w)" % n, n, n, "w", "rid", "jid", "broken", "broken", "broken"), b, label))
    for args, jid, n, w in (("", "1", 1, "3"), (", jid", "jid", 1, "3"), (", -1, n_lanes=2", "-1", 2, "3"), (", junction=jid, lane_offset=w", "jid", 1, "w"), (", 5, p.STD_START_CLOTH, 2, w", "5", 2, "w")):
        I = pool.get()
        label = "create_cloth_arc_cloth(..., rid%s)" % args
        compare(ctx, I, "C33-cloth", label, ctx.run(I, cross_code("p.create_cloth_arc_cloth(k, aa, ca, rid%s)" % args, n, n, w, "rid", jid, "broken", "broken", "broken"), b, label))
    pool.close()


def c33_apart(ctx):
    """two generated roads in a row: the second is as requested whatever the first was"""
    pool = Pool(ctx)
    b = dict(binds(), **nums("cs", k="+", aa="+", ca="+", w2="+", rid2="+"))
    calls = {
        "create_road": ("p.create_road([p.Line(L)], rid, 2, 1, jid, SOLID, w)", (2, 1, "w", "rid", "jid", "solid", "broken", "solid")),
        "create_straight_road": ("p.create_straight_road(rid, L, jid, 2, w)", (2, 2, "w", "rid", "jid", "broken", "broken", "broken")),
        "create_cloth_arc_cloth": ("p.create_cloth_arc_cloth(k, aa, ca, rid, jid, n_lanes=2, lane_offset=w)", (2, 2, "w", "rid", "jid", "broken", "broken", "broken")),
    }
    first = ["p.create_road([p.Line(9)], 5, 3, 3, 4, p.RoadMark(p.RoadMarkType.curb, 1), 7)", "p.create_straight_road(5, 9, 4, 3, 7)", "p.create_cloth_arc_cloth(k, aa, ca, 5, 4, n_lanes=3, lane_offset=7)"]
    for (name, (call, args)), before in itertools.product(calls.items(), first):
        I = pool.get()
        code = cross_code(call, *args).replace("r = " + call, "q = %s\nfinished(q)\nr = %s" % (before, call))
        label = "%s after %s" % (name, before.split("(")[0])
        compare(ctx, I, "C33-apart", label, ctx.run(I, code, b, label))
    pool.close()


# --------------------------------------------------------------------------------------------------
J = PRE + """
def arm(rid, sections, links=()):
    # sections: (lanes per side, lane width)
    ls = p.Lanes()
    for j in range(len(sections)):
        sec = p.LaneSection(10 * j, p.Lane())
        for i in range(sections[j][0]):
            sec.add_left_lane(p.Lane(a=sections[j][1]))
            sec.add_right_lane(p.Lane(a=sections[j][1]))
        ls.add_lanesection(sec)
    pv = p.PlanView()
    pv.add_geometry(p.Line(50))
    return p.Road(rid, pv, ls)
def road_links(r):
    e = r.get_element()
    return tuple([(l.tag, l.get('elementType'), l.get('elementId'), l.get('contactPoint')) for k in e if k.tag == 'link' for l in k])
def side_widths(r):
    # (lanes left, lanes right, all widths)
    l, rt, ws, ok = 0, 0, [], True
    for s, got in cross(r):
        for side, lid, w, m in got:
            if side == 'left':
                l += 1
            if side == 'right':
                rt += 1
            if side != 'center':
                ws.append(w)
    return l, rt, ws
def width_ok(ws, w1, w2):
    # one width each, that of one of the roads joined
    ok = True
    for w in ws:
        ok = ok and len(w) == 1 and (w[0][1] == w1 or w[0][1] == w2) and w[0][0] == 0 and w[0][2] == 0 and w[0][3] == 0 and w[0][4] == 0
    return ok
"""


def c35(ctx):
    jobs = []
    sets = {
        2: ["[0, np.pi]", "[0, np.pi / 2]", "[0, 3 * np.pi / 2]", "[0, 1]", "[2, 1 + np.pi]"],
        3: ["[0, np.pi / 2, np.pi]", "[0, 2 * np.pi / 3, 4 * np.pi / 3]", "[0, np.pi, 3 * np.pi / 2]"],
        4: ["[0, np.pi / 2, np.pi, 3 * np.pi / 2]"],
        5: ["[0, 1, 2, 3, 4]"],
    }
    if ctx.deep:
        sets[6] = ["[0, 1, 2, 3, 4, 5]"]
    for n, angles in sets.items():
        for a in angles:
            for lanes in (1, 2, 3) if n < 4 else (2,):
                jobs.append(lambda ctx, n=n, a=a, lanes=lanes: c35_layout(ctx, n, a, lanes))
    jobs += [c35_calls, c35_mismatch, decorated("Lane", c35_calls), decorated("Lane Road", c35_mismatch)]
    jobs += [decorated("Lane", lambda ctx, n=n, a=a: c35_layout(ctx, n, a, 2)) for n, a in ((2, "[0, np.pi]"), (3, "[0, np.pi / 2, np.pi]"))]
    ctx.parallel(jobs)
    ctx.sample("2 to %d roads, straight and curved pairs, 1 to 3 lanes, unbounded ids and widths" % max(sets))


def c35_layout(ctx, n, angles, lanes):
    """layout of the generated roads; each road has its own lane width at the junction and other lanes elsewhere"""
    I = ctx.interp()
    b = nums("n0", "jid", "t", rad="+", **{"w%d" % i: "+" for i in range(n)})
    for many in (0, 1):
        for same in (0, 1):
            roads = []
            for i in range(n):
                w = "w0" if same else "w%d" % i
                secs = "((%d, %s),)" % (lanes, w)
                if many:
                    secs = "((%d, 9), (%d, 8), (%d, %s))" % (lanes + 1, lanes, lanes, w) if i == 0 else "((%d, %s), (%d, 8), (%d, 9))" % (lanes, w, lanes, lanes + 1)
                roads.append("arm(%d, %s)" % (11 + i, secs))
            code = J + "rs = [%s]\nts = p.create_junction_roads(rs, %s, rad, jid, startnum=n0)\nn = len(ts)\n" % (", ".join(roads), angles)
            pairs = list(itertools.combinations(range(n), 2))
            code += layout_code(pairs, lanes, same, "n0", "jid")
            code += "".join("z%d, zw%d = road_links(rs[%d]), (('%s', 'junction', str(jid), None),)\n" % (i, i, i, "successor" if i == 0 else "predecessor") for i in range(n))
            label = "%d roads at %s, %d lanes per side%s%s" % (n, angles, lanes, ", several sections" if many else "", ", one width" if same else ", own widths")
            run = ctx.run(I, code, b, label)
            layout_check(ctx, I, label, run, pairs, n)
    ctx.done(I)


def layout_code(pairs, lanes, same, n0, jid):
    code = ""
    for k, (i, j) in enumerate(pairs):
        code += "who{0}, wwho{0} = membership(ts[{0}]), (str({1} + {0}), str({2}), str({1} + {0}))\n".format(k, n0, jid)
        code += "l{0}, wl{0} = road_links(ts[{0}]), (('predecessor', 'road', '{1}', '{2}'), ('successor', 'road', '{3}', 'start'))\n".format(k, 11 + i, "end" if i == 0 else "start", 11 + j)
        code += "c{0} = side_widths(ts[{0}])\nm{0}, wm{0} = (c{0}[0], c{0}[1]), ({1}, {1})\nv{0} = width_ok(c{0}[2], {2}, {3})\n".format(k, lanes, "w0" if same else "w%d" % i, "w0" if same else "w%d" % j)
    return code


def layout_check(ctx, I, label, run, pairs, n):
    if not ctx.no_raise(run, "C35-accepts", label):
        return
    ctx.eq(I, "C35-pairs", label, run["n"], len(pairs), run.pc, "number of connecting roads")
    for k, (i, j) in enumerate(pairs):
        at = "%s: connecting road %d, from road %d to road %d" % (label, k, i, j)
        ctx.eq(I, "C35-ids", at, run["who%d" % k], run["wwho%d" % k], run.pc, "id and junction")
        ctx.eq(I, "C35-links", at, run["l%d" % k], run["wl%d" % k], run.pc, "the links")
        ctx.eq(I, "C35-lanes", at, run["m%d" % k], run["wm%d" % k], run.pc, "lanes to the left and right")
        ctx.eq(I, "C35-widths", at, run["v%d" % k], True, run.pc, "every lane is as wide as those at the joining ends:")
    for i in range(n):
        ctx.eq(I, "C35-given", "%s: road %d" % (label, i), run["z%d" % i], run["zw%d" % i], run.pc, "the links of the given road")


def c35_calls(ctx):
    """defaults, and roads that are linked at their other ends"""
    I = ctx.interp()
    b = nums("n0", "jid", rad="+", w0="+", w1="+", w2="+")
    for args, n0, jid in (("", "100", "1"), (", jid", "100", "jid"), (", startnum=n0", "n0", "1"), (", 5, 1/4, 1/2, 7", "7", "5"), (", 'j'", "100", "'j'"), (", junction=0, startnum=0", "0", "0")):
        code = J + "rs = [arm(11, ((1, w0),)), arm(12, ((1, w1),)), arm(13, ((1, w2),))]\nts = p.create_junction_roads(rs, [0, np.pi / 2, np.pi], rad%s)\nn = len(ts)\n" % args
        pairs = list(itertools.combinations(range(3), 2))
        code += layout_code(pairs, 1, 0, n0, jid)
        code += "".join("z%d, zw%d = road_links(rs[%d]), (('%s', 'junction', str(%s), None),)\n" % (i, i, i, "successor" if i == 0 else "predecessor", jid) for i in range(3))
        label = "create_junction_roads(..., rad%s)" % args
        layout_check(ctx, I, label, ctx.run(I, code, b, label), pairs, 3)
    code = J + "rs = [arm(11, ((1, w0),)), arm(12, ((1, w1),)), arm(13, ((1, w2),))]\nrs[0].add_predecessor(RD, 21, E_)\nrs[1].add_successor(RD, 22, S)\nrs[2].add_successor(JN, 23)\nts = p.create_junction_roads(rs, [0, np.pi / 2, np.pi], rad, jid, startnum=n0)\nn = len(ts)\n"
    code += layout_code(pairs, 1, 0, "n0", "jid")
    other = ["('predecessor', 'road', '21', 'end')", "('successor', 'road', '22', 'start')", "('successor', 'junction', '23', None)"]
    code += "".join("z%d, zw%d = road_links(rs[%d]), (%s, ('%s', 'junction', str(jid), None),)\n" % (i, i, i, other[i], "successor" if i == 0 else "predecessor") for i in range(3))
    label = "roads that are linked at their other ends"
    layout_check(ctx, I, label, ctx.run(I, code, b, label), pairs, 3)
    # ids as text
    code = J + "rs = [arm('left', ((1, w0),)), arm('12', ((1, w1),))]\nts = p.create_junction_roads(rs, [0, np.pi / 2], rad, jid, startnum=n0)\nx, w = road_links(ts[0]), (('predecessor', 'road', 'left', 'end'), ('successor', 'road', '12', 'start'))\n"
    run = ctx.run(I, code, b, "ids as text")
    if ctx.no_raise(run, "C35-accepts", "ids as text"):
        ctx.eq(I, "C35-links", "ids as text", run["x"], run["w"], run.pc, "the links")
    # two junctions
    code = J + "rs = [arm(11, ((1, w0),)), arm(12, ((1, w1),))]\nqs = [arm(21, ((2, w0),)), arm(22, ((2, w1),))]\nts = p.create_junction_roads(qs, [0, np.pi], rad, 77, startnum=500)\nts = p.create_junction_roads(rs, [0, np.pi / 2], rad, jid, startnum=n0)\nn = len(ts)\n"
    code += layout_code([(0, 1)], 1, 0, "n0", "jid") + "".join("z%d, zw%d = road_links(rs[%d]), (('%s', 'junction', str(jid), None),)\n" % (i, i, i, "successor" if i == 0 else "predecessor") for i in range(2))
    layout_check(ctx, I, "a second junction", ctx.run(I, code, b, "a second junction"), [(0, 1)], 2)
    ctx.done(I)


def c35_mismatch(ctx):
    I = ctx.interp()
    b = nums(rad="+")

    def side(rid, l, r):
        return "one(%s, %d, %d)" % (rid, l, r)

    pre = J + "def one(rid, l, r):\n    ls = p.Lanes()\n    sec = p.LaneSection(0, p.Lane())\n    for i in range(l):\n        sec.add_left_lane(p.Lane(a=3))\n    for i in range(r):\n        sec.add_right_lane(p.Lane(a=3))\n    ls.add_lanesection(sec)\n    pv = p.PlanView()\n    pv.add_geometry(p.Line(50))\n    return p.Road(rid, pv, ls)\n"
    for a, c in itertools.permutations(((1, 1), (2, 2), (1, 2), (2, 1), (3, 3)), 2):
        for ang in ("[0, np.pi]", "[0, np.pi / 2]"):
            code = pre + "p.create_junction_roads([%s, %s], %s, rad)\n" % (side(1, *a), side(2, *c), ang)
            label = "roads with %s and %s lanes at %s" % (a, c, ang)
            ctx.raises(I, ctx.run(I, code, b, label), "C35-mismatch", label, "NotSameAmountOfLanesError", what="generating")
    # lanes that differ only at the ends that are joined
    for first, second in (("((2, 3), (1, 3))", "((2, 3),)"), ("((1, 3),)", "((2, 3), (1, 3))")):
        code = J + "p.create_junction_roads([arm(1, %s), arm(2, %s)], [0, np.pi / 2], rad)\n" % (first, second)
        label = "roads with sections %s and %s" % (first, second)
        ctx.raises(I, ctx.run(I, code, b, label), "C35-mismatch", label, "NotSameAmountOfLanesError", what="generating")
    code = J + "p.create_junction_roads([arm(1, ((1, 3),)), arm(2, ((1, 3),)), arm(3, ((1, 3), (2, 3))), arm(4, ((2, 3), (1, 3)))], [0, 1, 2, 3], rad)\n"
    ctx.raises(I, ctx.run(I, code, b, "only the last road differs"), "C35-mismatch", "only the last road differs", "NotSameAmountOfLanesError", what="generating")
    ctx.done(I)


# --------------------------------------------------------------------------------------------------
TURN = """
def shape(r):
    # kinds of the pieces, their curvatures where constant or met, the turning of each piece, and the total length
    r.planview.set_start_point(x0, y0, h0)
    r.planview.adjust_geometries()
    g = list(r.planview.get_element())
    h = [float(q.get('hdg')) for q in g] + [r.planview.get_end_point()[2]]
    kinds = tuple([q[0].tag for q in g])
    curv = ()
    if kinds == ('spiral', 'arc', 'spiral'):
        curv = (float(g[0][0].get('curvEnd')), float(g[1][0].get('curvature')), float(g[2][0].get('curvStart')))
    return kinds, curv, tuple([h[i + 1] - h[i] for i in range(len(g))])
def curved(turn, sp, ap, rad):
    k = 1 / rad if turn > 0 else -1 / rad
    return ('spiral', 'arc', 'spiral'), (k, k, k), (turn * sp, turn * ap, turn * sp)
def straight(sp, rad):
    # twice the distance from the end of the tangent to its corner of a turn by a right angle
    th = np.pi / 2 * sp
    e = p.Spiral(p.STD_START_CLOTH, 1 / rad, length=2 * th * rad).get_end_data(0, 0, 0)
    return 2 * ((e[0] - rad * np.sin(th)) + rad + (e[1] - rad * (1 - np.cos(th))))
"""


def c42(ctx):
    b = dict(nums("x0", "y0", "h0", "t0", rad="+", u="+", sp="+", ap="+", w0="+", L="+"))
    two = [("to the left", "[t0, t0 + np.pi + a]", "a"), ("to the right", "[t0, t0 + np.pi - a]", "-a"), ("ahead", "[t0, t0 + np.pi]", "0")]
    jobs = []
    for label, angles, turn in two:
        jobs.append(lambda ctx, l=label, a=angles, t=turn: c42_layout(ctx, "two roads, turning " + l, 2, a, {(0, 1): t}, b))
    sets = [(3, ["0", "np.pi / 2", "np.pi"]), (3, ["0", "2 * np.pi / 3", "4 * np.pi / 3"]), (3, ["0", "np.pi", "3 * np.pi / 2"]), (4, ["0", "np.pi / 2", "np.pi", "3 * np.pi / 2"]), (3, ["np.pi / 3", "np.pi", "4 * np.pi / 3"]), (2, ["np.pi", "5 * np.pi / 2"])]
    for n, an in sets:
        turns = {(i, j): "(%s) - (%s) - np.pi" % (an[j], an[i]) for i, j in itertools.combinations(range(n), 2)}
        jobs.append(lambda ctx, n=n, an=an, t=turns: c42_layout(ctx, "%d roads at %s" % (n, ", ".join(an)), n, "[%s]" % ", ".join(an), t, b))
    ctx.parallel(jobs)


def c42_layout(ctx, label, n, angles, turns, b):
    pool = Pool(ctx)
    for args, sp, ap in ((", 7, sp, ap", "sp", "ap"), ("", "1 / 3", "1 / 3"), (", 7, 1 / 4, 1 / 2, 50", "1 / 4", "1 / 2"), (", spiral_part=2 / 5, arc_part=1 / 5", "2 / 5", "1 / 5"), (", arc_part=ap", "1 / 3", "ap")):
        for lanes in (1, 2):
            I = pool.get()
            code = J + TURN + "a = np.pi * u / (1 + u)\nangles = %s\n" % angles
            code += "rs = [arm(11 + i, ((%d, w0),)) for i in range(%d)]\nts = p.create_junction_roads(rs, angles, rad%s)\n" % (lanes, n, args)
            for k, (ij, turn) in enumerate(turns.items()):
                code += "g{0} = shape(ts[{0}])\nturn = {1}\nif turn == 0:\n    w{0} = (('line',), (), (0,))\n    l{0} = ts[{0}].planview.get_total_length()\n    m{0} = straight({2}, rad)\nelse:\n    w{0} = curved(turn, {2}, {3}, rad)\n    l{0} = m{0} = 0\n".format(k, turn, sp, ap)
            at = "%s, create_junction_roads(..., rad%s), %d lanes" % (label, args, lanes)
            run = ctx.run(I, code, b, at)
            if not ctx.no_raise(run, "C42-accepts", at):
                continue
            for k, (i, j) in enumerate(turns):
                ctx.eq(I, "C42-turns", "%s: from road %d to road %d (pieces, curvatures, turning)" % (at, i, j), run["g%d" % k], run["w%d" % k], run.pc, "the shape")
                ctx.eq(I, "C42-straight", "%s: from road %d to road %d" % (at, i, j), run["l%d" % k], run["m%d" % k], run.pc, "the length of the straight road")
    ctx.sample("create_junction_roads for %s: pieces, curvatures and turning of every connecting road" % label)
    pool.close()


# --------------------------------------------------------------------------------------------------
R = NET + """
def edge(sections, start=None):
    # sections: (start, widths to the left, widths to the right)
    ls = p.Lanes()
    for s, l, r in sections:
        sec = p.LaneSection(s, p.Lane(a=99))
        for w in l:
            sec.add_left_lane(p.Lane(a=w))
        for w in r:
            sec.add_right_lane(p.Lane(a=w))
        ls.add_lanesection(sec)
    pv = p.PlanView() if start is None else p.PlanView(*start)
    pv.add_geometry(p.Line(L1))
    pv.add_geometry(p.Line(L2))
    r = p.Road(1, pv, ls)
    r.planview.adjust_geometries()
    return r
def stand_for(r, what='object'):
    return [o for k in r.get_element() if k.tag == 'objects' for o in k]
def place(o):
    rep = [q for q in o if q.tag == 'repeat']
    return (float(o.get('s')), float(o.get('t')), float(o.get('hdg')), len(rep), tuple([(float(q.get('s')), float(q.get('length')), float(q.get('distance')), float(q.get('tStart')), float(q.get('tEnd'))) for q in rep]))
def rest(o):
    # everything that is copied from the prototype
    return tuple(sorted([(k, o.get(k)) for k in o.keys() if k not in ('id', 's', 't', 'hdg')]))
"""


def protos():
    return {
        "pole": "p.Object(ps, pt, p.ObjectType.pole, id='proto', name='n', height=oh, zOffset=z, orientation=p.Orientation.negative, hdg=hd, pitch=pi_, roll=ro, width=ow, length=ol, dynamic=p.Dynamic.yes, subtype='st', validLength=vl)",
        "bare": "p.Object(ps, pt)",
        "radius": "p.Object(ps, pt, Type=p.ObjectType.vegetation, radius=ow, id='proto')",
    }


def c37(ctx):
    jobs = [c37_shapes, c37_sections, c37_offsets, c37_proto, c37_several, c37_ready]
    ctx.parallel(jobs + [decorated("Lane", j) for j in jobs[1:]])


def side_list(side):
    return {"both": ("left", "right"), "left": ("left",), "right": ("right",)}[side]


def roadside_binds():
    b = nums("ps", "pt", "oh", "z", "hd", "pi_", "ro", "ow", "ol", "vl", "so", "to", "rd", "s0", "s1", "s2", "x", "y", "h", L1="+", L2="+", **{"w%d" % i: "+" for i in range(8)})
    b.update(HOOKS)
    return b


def roadside(ctx, I, rule, label, secs, side, proto, args, so, to, dist="rd", before="", binds=None, extra=0, pre_objs=0):
    """secs: (start, [left widths], [right widths])"""
    tup = "(%s)" % "".join("(%s, (%s), (%s)), " % (s, "".join(w + ", " for w in l), "".join(w + ", " for w in r)) for s, l, r in secs)
    code = R + "r = edge(%s)\n%so = %s\nSNAP('b', o)\nr.add_object_roadside(o%s)\nSNAP('a', o)\n" % (tup, before, proto, args)
    code += "objs = stand_for(r)\nn = len(objs)\nmade = objs[%d:]\n" % pre_objs
    # within one side, sections come in order
    for name, hdg in (("left", "np.pi"), ("right", "0")):
        code += "%s = [q for q in made if float(q.get('hdg')) == %s]\n" % (name, hdg)
    want = 0
    for name in side_list(side):
        for j, (s, l, rt) in enumerate(secs):
            ws = l if name == "left" else rt
            sign = "" if name == "left" else "-"
            tot = " + ".join(ws + [to])
            code += "g_%s%d, e_%s%d = place(%s[%d]), (%s + %s, %s(%s), %s, 1, ((%s + %s, L1 + L2 - (%s) - %s, %s, %s(%s), %s(%s)),))\n" % (
                name, j, name, j, name, j, s, so, sign, tot, "np.pi" if name == "left" else "0", s, so, so, s, dist, sign, tot, sign, tot)
            want += 1
    code += "gn = (n, len(left), len(right))\n"
    # the copies carry what the prototype has; ids differ
    code += "solo = p.Road(2, p.PlanView(0, 0, 0), p.Lanes())\nsolo.add_object(%s)\npe = solo.objects[0].get_element()\n" % proto
    code += "copies = tuple([rest(q) for q in made])\nproto = tuple([rest(pe)] * len(made))\nuniq = len(set([q.get('id') for q in objs]))\n"
    I.snaps = []
    run = ctx.run(I, code, binds or roadside_binds(), label)
    if not ctx.no_raise(run, rule + "-accepts", label):
        return
    nl = len(secs) if "left" in side_list(side) else 0
    nr = len(secs) if "right" in side_list(side) else 0
    if not ctx.eq(I, rule, label + ": objects, to the left, to the right", run["gn"], T.Tup((want + pre_objs, nl, nr)), run.pc, "number of objects"):
        return
    for name in side_list(side):
        for j in range(len(secs)):
            ctx.eq(I, rule, "%s: %s side of section %d, (s, t, hdg, repeats, (s, length, distance, tStart, tEnd))" % (label, name, j), run["g_%s%d" % (name, j)], run["e_%s%d" % (name, j)], run.pc, "the object placed")
    ctx.eq(I, rule, label + ": attributes of the copies", run["copies"], run["proto"], run.pc, "what is copied from the prototype")
    ctx.eq(I, rule, label, run["uniq"], want + pre_objs, run.pc, "number of different ids")
    unchanged(ctx, I, rule, label + ": prototype", I.snaps[0], I.snaps[1])


def c37_shapes(ctx):
    pool = Pool(ctx)
    protos_ = protos()
    for l, r in itertools.product(ctx.sizes(4), repeat=2):
        for side in ("both", "left", "right"):
            secs = [("0", ["w%d" % i for i in range(l)], ["w%d" % (4 + i) for i in range(r)])]
            roadside(ctx, pool.get(), "C37-shapes", "%d lanes left, %d right, side %s" % (l, r, side), secs, side, protos_["bare"], ", rd, so, to, p.RoadSide." + side, "so", "to")
    ctx.sample("all numbers of lanes up to %d per side, unbounded lane widths, offsets and distances" % max(ctx.sizes(4)))
    # lanes without width, and many lanes
    for l in (["0"], ["w0", "0"], ["0", "w0"], ["0", "0"], ["w0"]):
        for r in (["0"], ["w1", "0"], ["0", "w1", "w2"], ["0", "0"]):
            roadside(ctx, pool.get(), "C37-shapes", "lanes of the widths %s to the left and %s to the right" % (l, r), [("0", l, r)], "both", protos_["bare"], ", rd, so, to", "so", "to")
    for l, r in ((9, 0), (0, 9), (9, 9), (7, 8)):
        ws = ["w%d" % (i % 8) for i in range(l)], ["w%d" % ((i + 3) % 8) for i in range(r)]
        roadside(ctx, pool.get(), "C37-shapes", "%d lanes left, %d right" % (l, r), [("0", *ws), ("s1", *ws[::-1])], "both", protos_["bare"], ", rd, so, to", "so", "to")
    pool.close()


def c37_sections(ctx):
    pool = Pool(ctx)
    for n in (1, 2, 3, 4):
        secs = [("s%d" % i if i else "0", ["w0"] * i, ["w1", "w2"][: 2 - i]) for i in range(n) if i < 3] + ([("40", ["w3", "w4"], ["w5"])] if n == 4 else [])
        for side in ("both", "left", "right"):
            roadside(ctx, pool.get(), "C37-sections", "%d sections, side %s" % (n, side), secs, side, protos()["pole"], ", rd, so, to, p.RoadSide." + side, "so", "to")
    pool.close()


def c37_offsets(ctx):
    pool = Pool(ctx)
    secs = [("s0", ["w0", "w1"], ["w2"])]
    for args, so, to, side, d in (
        (", rd", "0", "0", "both", "rd"),
        (", 0", "0", "0", "both", "0"),
        (", rd, so", "so", "0", "both", "rd"),
        (", rd, tOffset=to", "0", "to", "both", "rd"),
        (", rd, side=p.RoadSide.left", "0", "0", "left", "rd"),
        (", rd, side=p.RoadSide.right, tOffset=-to, sOffset=so", "so", "(-to)", "right", "rd"),
        (", repeatDistance=5, sOffset=0, tOffset=0", "0", "0", "both", "5"),
    ):
        for start in ("", "(x, y, h)"):
            roadside(ctx, pool.get(), "C37-offsets", "add_object_roadside(o%s)" % args, secs, side, protos()["pole"], args, so, to, d)
    pool.close()


def c37_proto(ctx):
    pool = Pool(ctx)
    secs = [("0", ["w0"], ["w1"]), ("s1", ["w2"], ["w3"])]
    for name, o in protos().items():
        roadside(ctx, pool.get(), "C37-prototype", "prototype " + name, secs, "both", o, ", rd, so, to", "so", "to")
    # the copies are independent of each other, of the prototype, and of later calls with it
    I = pool.get()
    code = R + "r = edge(((0, (w0,), (w1,)), (s1, (w2,), (w3,))))\nq = edge(((0, (w0,), (w1,)),))\no = %s\nr.add_object_roadside(o, rd, so, to)\n" % protos()["pole"]
    code += "def doc(road):\n    e = ET.Element('all')\n    for x in stand_for(road):\n        e.append(x)\n    return e\n"
    code += "before = doc(r)\nq.add_object_roadside(o, 7, 8, 9)\no.t = 77\no.name = 'other'\no.repeat(1, 2)\nafter = doc(r)\n"
    run = ctx.run(I, code, roadside_binds(), "prototype changed and used again")
    if ctx.no_raise(run, "C37-independent-accepts", "prototype changed and used again"):
        same_xml(ctx, I, "C37-independent", "prototype changed and used again", run, "after", run, "before")
    for k in range(4):
        I = pool.get()
        code = R + "r = edge(((0, (w0,), (w1,)), (s1, (w2,), (w3,))))\no = %s\nr.add_object_roadside(o, rd, so, to)\n" % protos()["pole"]
        code += "def doc(xs):\n    e = ET.Element('all')\n    for x in xs:\n        e.append(x)\n    return e\nbefore = doc([x for i, x in enumerate(stand_for(r)) if i != %d])\nr.objects[%d].repeat(1, 2)\nr.objects[%d].t = 5\nr.objects[%d].name = 'q'\nafter = doc([x for i, x in enumerate(stand_for(r)) if i != %d])\n" % (k, k, k, k, k)
        run = ctx.run(I, code, roadside_binds(), "copy %d changed" % k)
        if ctx.no_raise(run, "C37-independent-accepts", "copy %d changed" % k):
            same_xml(ctx, I, "C37-independent", "copy %d changed" % k, run, "after", run, "before")
    pool.close()


def c37_several(ctx):
    pool = Pool(ctx)
    secs = [("0", ["w0"], ["w1"]), ("s1", ["w2"], ["w3"])]
    roadside(ctx, pool.get(), "C37-several", "after other objects", secs, "both", protos()["pole"], ", rd, so, to", "so", "to", before="r.add_object(p.Object(1, 2, id='a'))\nr.add_object([p.Object(1, 2), p.Object(3, 4, id='proto')])\n", pre_objs=3)
    roadside(ctx, pool.get(), "C37-several", "a second time", secs, "left", protos()["pole"], ", rd, so, to, p.RoadSide.left", "so", "to", before="r.add_object_roadside(%s, 3, 4, 5)\n" % protos()["bare"], pre_objs=4)
    pool.close()


def c37_ready(ctx):
    """the whole length counts, also for roads positioned as part of a network and from their end"""
    pool = Pool(ctx)
    for how in ("start", "end"):
        I = pool.get()
        code = R.replace("    r.planview.adjust_geometries()\n", "") + "a, b = edge(((0, (w0,), (w1,)),)), edge(((0, (w0,), (w1,)),))\nb.id = 2\n"
        code += "a.add_successor(RD, 2, S)\nb.add_predecessor(RD, 1, E_)\nod = p.OpenDrive('n')\n" + ("od.add_road(a)\nod.add_road(b)\nr = b\n" if how == "start" else "od.add_road(b)\nod.add_road(a)\nr = a\n")
        code += "od.adjust_roads_and_lanes()\nr.add_object_roadside(p.Object(ps, pt), rd, so, to, p.RoadSide.left)\ng, e = place(stand_for(r)[0]), (so, w0 + to, np.pi, 1, ((so, L1 + L2 - so, rd, w0 + to, w0 + to),))\n"
        run = ctx.run(I, code, roadside_binds(), "road positioned from its " + how)
        if ctx.no_raise(run, "C37-ready-accepts", how):
            ctx.eq(I, "C37-ready", "road positioned from its " + how, run["g"], run["e"], run.pc, "the object placed")
    pool.close()
