"""C27-C30: positioning of networks of roads with opaque geometries; every tree of links up to the cut-off."""
import itertools
import zlib

from .. import terms as T
from ..interp import Ext
from ..harness import instance
from ..terms import b_and
from .serial import nums

# a geometry about which nothing is known; poses enter through the sine and cosine of the heading, so whole turns do not matter
NET = """
import numpy as np
class Opaque:
    def __init__(self, k):
        self.k = k
    def get_end_data(self, x, y, h):
        a = (self.k, x, y, np.cos(h), np.sin(h))
        return EX(*a), EY(*a), EH(*a), GL(self.k)
    def get_start_data(self, x, y, h):
        a = (self.k, x, y, np.cos(h), np.sin(h))
        return SX(*a), SY(*a), SH(*a), GL(self.k)
    def get_element(self):
        return ET.Element('opaque', attrib={'k': str(self.k)})
def fwd(k, q):
    # end pose of geometry k started at pose q
    a = (k, q[0], q[1], np.cos(q[2]), np.sin(q[2]))
    return (EX(*a), EY(*a), EH(*a))
def bwd(k, q):
    # start pose of geometry k whose end is at pose q
    h = q[2] + np.pi
    a = (k, q[0], q[1], np.cos(h), np.sin(h))
    return (SX(*a), SY(*a), SH(*a) + np.pi)
def flip(q):
    return (q[0], q[1], q[2] + np.pi)
def ident(q):
    return q
def shifted(q, n, w):
    # n lane widths to the left of the travel direction
    return (q[0] - n * w * np.sin(q[2]), q[1] + n * w * np.cos(q[2]), q[2])
def lanes(n, w):
    ls = p.Lanes()
    sec = p.LaneSection(0, p.Lane())
    for i in range(n):
        sec.add_left_lane(p.Lane(a=w))
        sec.add_right_lane(p.Lane(a=w))
    ls.add_lanesection(sec)
    return ls
def mk(k, rid, start, junction, n=1, w=3):
    pv = p.PlanView() if start is None else p.PlanView(*start)
    pv.add_geometry(Opaque(k))
    if not DECO:
        return p.Road(rid, pv, lanes(n, w), road_type=junction)
    # a road with everything on it
    r = p.Road(rid, pv, lanes(n, w), road_type=junction, name='road %d' % k, rule='RHT')
    o = p.Object(1, 2, p.ObjectType.pole, id='o%d' % k)
    o.repeat(10, 2)
    r.add_object([o, p.Object(3, 4, id='q%d' % k)])
    r.add_signal(p.Signal(1, 2, 'se', 'stop', id='s%d' % k))
    r.add_neighbor(RD, 500 + k, p.Direction.same)
    r.add_neighbor(RD, 600 + k, p.Direction.opposite)
    return r
DECO = False
def pose(q):
    return q[0], q[1], np.cos(q[2]), np.sin(q[2])
def where(road):
    # what is written: number of records, station, pose and length of the first record, total length; and the end reported
    g = list(road.planview.get_element())
    if not g:
        return (0,)
    e = g[0]
    return (len(g), float(e.get('s')), pose((float(e.get('x')), float(e.get('y')), float(e.get('hdg')))), pose(road.planview.get_start_point()), pose(road.planview.get_end_point()))
def expect(s, e):
    return (1, 0, pose(s), pose(s), pose(e))
S, E_ = p.ContactPoint.start, p.ContactPoint.end
RD, JN = p.ElementType.road, p.ElementType.junction
"""

UFS = {k: Ext("uf." + k) for k in ("EX", "EY", "EH", "SX", "SY", "SH", "GL")}
ENDS = ("start", "end")
CP = {"start": "S", "end": "E_"}


class Net:
    """roads 0..n-1; kinds: '-' ordinary, 'c' connecting; edges ((i, end), (j, end)) join two road ends.

    An edge between ordinary roads is declared on both; at a connecting road only there, the ordinary road names the junction."""

    def __init__(self, kinds, edges, fixed=(), order=None, ids=None, jid="77"):
        self.kinds, self.edges, self.fixed = kinds, list(edges), tuple(fixed)
        self.n = len(kinds)
        self.order = tuple(order if order is not None else range(self.n))
        self.ids = ids or [str(11 + i) for i in range(self.n)]
        self.jid = jid
        self.offsets = {}
        self.contact = None

    def label(self):
        e = ", ".join("%d.%s-%d.%s" % (a[0], a[1], b[0], b[1]) for a, b in self.edges)
        return "roads %s, joined %s, fixed %s, added %s" % (self.kinds, e or "nothing", list(self.fixed), list(self.order))

    def binds(self):
        b = dict(UFS)
        for i in self.fixed:
            b.update(nums("fx%d" % i, "fy%d" % i, "fh%d" % i))
        return b

    def start(self, i):
        return "(fx%d, fy%d, fh%d)" % (i, i, i) if i in self.fixed else "None"

    def build(self, extra="", deco=None):
        # half of the networks have objects, signals, names, rules and neighbours on their roads; links to junctions may name a contact point
        crc = zlib.crc32(self.label().encode())
        out = ["DECO = %s" % (crc % 2 == 1 if deco is None else deco)]
        contact = ("", ", S", ", E_")[crc // 2 % 3 if self.contact is None else self.contact]
        for i in range(self.n):
            out.append("r%d = mk(%d, %s, %s, %s%s)" % (i, i, self.ids[i], self.start(i), self.jid if self.kinds[i] == "c" else "-1", extra))
        named = set()
        for a, b in self.edges:
            for (i, ei), (j, ej) in ((a, b), (b, a)):
                add = "add_successor" if ei == "end" else "add_predecessor"
                if self.kinds[i] == "-" and self.kinds[j] == "c":
                    if (i, ei) not in named:
                        named.add((i, ei))
                        out.append("r%d.%s(JN, %s%s)" % (i, add, self.jid, contact))
                else:
                    off = ", lane_offset=%s" % self.offsets[(i, ei)] if (i, ei) in self.offsets else ""
                    out.append("r%d.%s(RD, %s, %s%s)" % (i, add, self.ids[j], CP[ej], off))
        return "\n".join(out) + "\n"

    def add(self, which=None):
        return "".join("od.add_road(r%d)\n" % i for i in (which if which is not None else self.order))

    def pivots(self):
        return list(self.fixed) or [self.order[0]]

    def expected(self, width="3"):
        """code computing the pose of every road reachable from the pivots, walking the tree; returns (code, reached)"""
        out, seen, todo = [], set(), []
        for i in self.pivots():
            out.append("s{0} = {1}\ne{0} = fwd({0}, s{0})".format(i, "(0, 0, 0)" if i not in self.fixed else self.start(i)))
            seen.add(i)
            todo.append(i)
        while todo:
            i = todo.pop(0)
            for a, b in self.edges:
                for (u, eu), (v, ev) in ((a, b), (b, a)):
                    if u != i or v in seen:
                        continue
                    # direction of travel out of road i at this end
                    leave = "e%d" % i if eu == "end" else "flip(s%d)" % i
                    off = "shifted(%s, {0}, {1})".format(self.offsets[(v, ev)], width) if (v, ev) in self.offsets else "%s"
                    if ev == "start":
                        out.append("s{0} = {1}\ne{0} = fwd({0}, s{0})".format(v, off % leave))
                    else:
                        out.append("e{0} = {1}\ns{0} = bwd({0}, e{0})".format(v, off % ("flip(%s)" % leave)))
                    seen.add(v)
                    todo.append(v)
        return "\n".join(out) + "\n", seen


def shapes(n):
    """all ways to join the ends of n roads to a tree: (kinds, edges); ordinary ends join one ordinary end or any number of connecting ends"""
    out = []
    for kinds in itertools.product("-c", repeat=n):
        if all(k == "c" for k in kinds):
            continue
        ends = [(i, e) for i in range(n) for e in ENDS]
        for tree in _trees(n):
            for choice in itertools.product(ENDS, repeat=2 * len(tree)):
                edges = [((i, choice[2 * k]), (j, choice[2 * k + 1])) for k, (i, j) in enumerate(tree)]
                if _legal(kinds, edges):
                    out.append(("".join(kinds), edges))
    return out


def _trees(n):
    if n == 1:
        return [()]
    pairs = list(itertools.combinations(range(n), 2))
    out = []
    for sel in itertools.combinations(pairs, n - 1):
        comp = list(range(n))
        for i, j in sel:
            a, b = comp[i], comp[j]
            if a == b:
                break
            comp = [a if c == b else c for c in comp]
        else:
            if len(set(comp)) == 1:
                out.append(sel)
    return out


def _legal(kinds, edges):
    use = {}
    for a, b in edges:
        if kinds[a[0]] == "c" and kinds[b[0]] == "c":
            return False
        for x, y in ((a, b), (b, a)):
            use.setdefault(x, []).append(kinds[y[0]])
    for (i, e), others in use.items():
        # an end is linked once; an ordinary end that names a junction meets any number of connecting roads
        if len(others) > 1 and not (kinds[i] == "-" and all(o == "c" for o in others)):
            return False
        if kinds[i] == "-" and "-" in others and "c" in others:
            return False
    return True


def canonical(kinds, edges):
    """one representative per renaming of the roads (the order of adding is varied separately)"""
    n = len(kinds)
    best = None
    for perm in itertools.permutations(range(n)):
        k = "".join(kinds[perm.index(i)] for i in range(n))
        e = sorted(tuple(sorted(((perm[a[0]], a[1]), (perm[b[0]], b[1])))) for a, b in edges)
        if best is None or (k, e) < best:
            best = (k, e)
    return best[0], tuple(best[1])


def networks(n):
    seen, out = set(), []
    for k, e in shapes(n):
        c = canonical(k, e)
        if c not in seen:
            seen.add(c)
            out.append(c)
    return out


class Pool:
    """share one interpreter among scenarios"""

    def __init__(self, ctx, size=40):
        self.ctx, self.size, self.I, self.k = ctx, size, None, 0

    def get(self):
        if self.I is None or self.k >= self.size:
            if self.I is not None:
                self.ctx.done(self.I)
            self.I, self.k = self.ctx.interp(), 0
        self.k += 1
        return self.I

    def close(self):
        if self.I is not None:
            self.ctx.done(self.I)
            self.I = None


def placed(ctx, I, rule, net, r, roads):
    label = net.label()
    for i in roads:
        ctx.eq(I, rule, "%s: road %d" % (label, i), r["w%d" % i], r["x%d" % i], r.pc, "the placement (records, station, start, start and end reported)")


def settle_net(ctx, pool, rule, net, code=None, pre=""):
    I = pool.get()
    exp, reached = net.expected()
    body = NET + net.build() + "od = p.OpenDrive('n')\n" + (code or net.add() + "od.adjust_roads_and_lanes()\n") + exp
    for i in sorted(reached):
        body += "w{0} = where(r{0})\nx{0} = expect(s{0}, e{0})\n".format(i)
    r = ctx.run(I, body, net.binds(), pre + net.label())
    if ctx.no_raise(r, rule + "-accepts", net.label()):
        placed(ctx, I, rule, net, r, sorted(reached))


def orders(n, deep, few=4):
    """orders of adding to analyse: all of them, or the given, the reversed and some others"""
    ps = list(itertools.permutations(range(n)))
    if deep or n <= 3:
        return ps
    step = max(1, len(ps) // few)
    return sorted(set([ps[0], ps[-1]] + ps[step // 2 :: step]))


def long_nets():
    """long chains: every road can only be placed after its neighbour"""
    out = []
    for k in (5, 6):
        out.append(("-" * k, tuple(((i, "end"), (i + 1, "start")) for i in range(k - 1))))
        out.append(("-" * k, tuple(((i, "end" if i % 2 == 0 else "start"), (i + 1, "end" if i % 2 == 0 else "start")) for i in range(k - 1))))
    out.append(("-c-c-", tuple(((i, "end"), (i + 1, "start")) for i in range(4))))
    out.append(("-c-c-", tuple(((i, "start"), (i + 1, "end")) for i in range(4))))
    # one junction with four arms
    out.append(("----ccc", tuple(e for k in range(3) for e in (((0, "end"), (4 + k, "start")), ((4 + k, "end"), (1 + k, "start"))))))
    out.append(("----ccc", tuple(e for k in range(3) for e in (((0, "end"), (4 + k, "end")), ((4 + k, "start"), (1 + k, "end" if k else "start"))))))
    return out


def c28(ctx):
    nets = []
    for n in (1, 2, 3, 4):
        for kinds, edges in networks(n):
            for order in orders(n, ctx.deep):
                for fixed in [()] + ([(i,) for i in range(n)] if n < 4 or ctx.deep else []):
                    nets.append(Net(kinds, edges, fixed, order))
    for kinds, edges in long_nets():
        n = len(kinds)
        for order in (tuple(range(n)), tuple(reversed(range(n))), tuple(sorted(range(n), key=lambda i: (i % 2, -i)))):
            nets.append(Net(kinds, edges, (), order))
            nets.append(Net(kinds, edges, (n // 2,), order))

    def trees(part):
        def job(ctx):
            pool = Pool(ctx)
            for net in part:
                settle_net(ctx, pool, "C28-placed", net)
            pool.close()

        return job

    ctx.parallel([trees(nets[k::24]) for k in range(24)] + [c28_ids, c28_fixed, c28_islands, c28_dangling])
    ctx.sample("%d networks: every tree of up to %d ordinary and connecting roads and their ends, up to renaming, in %s orders of adding, with no or one fixed road" % (len(nets), 4, "all" if ctx.deep else "all (up to three roads) or five"))


def c28_ids(ctx):
    pool = Pool(ctx)
    # numbers and texts as ids, in links and as road ids
    mixed = [["11", "'11a'", "13"], ["'1'", "'2'", "3"], ["'a'", "'b'", "'c d'"]]
    for kinds, edges in networks(3):
        for ids in mixed:
            settle_net(ctx, pool, "C28-ids", Net(kinds, edges, (), (1, 2, 0), ids), pre="mixed ids: ")
    # links that name a road by the other type than the road itself
    for kinds, edges in networks(2):
        net = Net(kinds, edges, (), (1, 0), ["11", "12"])
        other = net.build().replace("RD, 11,", "RD, '11',").replace("RD, 12,", "RD, '12',")
        net.build = lambda extra="", other=other: other
        settle_net(ctx, pool, "C28-ids", net, pre="ids of the other type in links: ")
    pool.close()


def c28_fixed(ctx):
    pool = Pool(ctx)
    # several fixed roads: each keeps its place, the others are placed once
    for kinds, edges in networks(3):
        for fixed in ((0, 1), (0, 2), (1, 2), (0, 1, 2)):
            for order in ((0, 1, 2), (2, 1, 0)):
                net = Net(kinds, edges, fixed, order)
                I = pool.get()
                body = NET + net.build() + "od = p.OpenDrive('n')\n" + net.add() + "od.adjust_roads_and_lanes()\n"
                for i in fixed:
                    body += "s{0} = {1}\nw{0} = where(r{0})\nx{0} = expect(s{0}, fwd({0}, s{0}))\n".format(i, net.start(i))
                body += "counts = (%s)\n" % ", ".join("len(list(r%d.planview.get_element()))" % i for i in range(3))
                body += "flags = (%s)\n" % ", ".join("r%d.planview.adjusted" % i for i in range(3))
                r = ctx.run(I, body, net.binds(), net.label())
                if ctx.no_raise(r, "C28-accepts", net.label()):
                    placed(ctx, I, "C28-fixed", net, r, fixed)
                    ctx.eq(I, "C28-once", net.label(), r["counts"], T.Tup((1, 1, 1)), r.pc, "number of placed geometries per road")
    # every road fixed with zeros in the start
    for z in ("(0, fy, fh)", "(fx, 0, fh)", "(fx, fy, 0)", "(0, 0, 0)"):
        I = pool.get()
        r = ctx.run(
            I,
            NET + "a, b = mk(1, 1, (fx, fy, fh), -1), mk(2, 2, %s, -1)\na.add_successor(RD, 2, S)\nb.add_predecessor(RD, 1, E_)\nod = p.OpenDrive('n')\nod.add_road(a)\nod.add_road(b)\nod.adjust_roads_and_lanes()\nw = where(b)\nx = expect(%s, fwd(2, %s))\n" % (z, z, z),
            dict(UFS, **nums("fx", "fy", "fh")),
            "fixed start %s" % z,
        )
        if ctx.no_raise(r, "C28-accepts", z):
            ctx.eq(I, "C28-fixed", "start %s" % z, r["w"], r["x"], r.pc, "placement of a road with an explicit start")
    pool.close()


def c28_islands(ctx):
    pool = Pool(ctx)
    # networks that are not connected: an error, unless every component has a fixed road
    for n in (1, 2, 3):
        for m in (1, 2):
            if n + m > 4:
                continue
            for k1, e1 in networks(n):
                for k2, e2 in networks(m):
                    kinds = k1 + k2
                    edges = list(e1) + [((a[0] + n, a[1]), (b[0] + n, b[1])) for a, b in e2]
                    tot = n + m
                    for order in orders(tot, False, 2) if tot < 4 else [tuple(range(tot)), tuple(reversed(range(tot)))]:
                        for fixed in ((), (0,), (n,), (0, n)):
                            net = Net(kinds, edges, fixed, order)
                            if len(fixed) == 2:
                                settle_net(ctx, pool, "C28-islands", net)
                                continue
                            I = pool.get()
                            r = ctx.run(I, NET + net.build() + "od = p.OpenDrive('n')\n" + net.add() + "od.adjust_roads_and_lanes()\n", net.binds(), net.label())
                            ctx.raises(I, r, "C28-unconnected", net.label(), "UndefinedRoadNetwork", what="positioning")
    pool.close()


def c28_dangling(ctx):
    pool = Pool(ctx)
    # links to roads that are not in the network
    for kinds, edges in networks(2):
        used = {x for e in edges for x in e}
        for i in range(2):
            for e in ENDS:
                if (i, e) in used:
                    continue
                net = Net(kinds, edges, (), (1, 0))
                base = net.build()
                net.build = lambda extra="", base=base, i=i, e=e: base + "r%d.%s(RD, 99, S)\n" % (i, "add_successor" if e == "end" else "add_predecessor")
                settle_net(ctx, pool, "C28-dangling", net, pre="dangling link at %d.%s: " % (i, e))
    I = pool.get()
    r = ctx.run(I, NET + "a, b = mk(1, 1, None, -1), mk(2, 2, None, -1)\nb.add_predecessor(RD, 99, E_)\nod = p.OpenDrive('n')\nod.add_road(a)\nod.add_road(b)\nod.adjust_roads_and_lanes()\n", UFS, "only link is dangling")
    ctx.raises(I, r, "C28-unconnected", "only link is dangling", "UndefinedRoadNetwork", what="positioning")
    pool.close()


# --------------------------------------------------------------------------------------------------
def c27(ctx):
    pool = Pool(ctx)
    for n in (2, 3):
        for kinds, edges in networks(n):
            for order in itertools.permutations(range(n)) if n == 2 else [(0, 1, 2), (1, 0, 2)]:
                for fixed in [()] + [(i,) for i in range(n)] if n == 2 else [()]:
                    settle_net(ctx, pool, "C27-meets", Net(kinds, edges, fixed, order))
    ctx.sample("every pair and triple of joined roads with opaque geometries, every combination of contact points")
    # lane offsets
    for kinds in ("--", "-c"):
        for e0 in ENDS:
            for e1 in ENDS:
                for lanes in (1, 2):
                    for w, rule in (("3", "C27-offset"), ("w", "C27-offset-width")):
                        net = Net(kinds, [((0, e0), (1, e1))], (0,), (0, 1))
                        net.offsets[(1, e1)] = "k"
                        I = pool.get()
                        leave = "e0" if e0 == "end" else "flip(s0)"
                        code = NET + net.build(", %d, %s" % (lanes, w)) + "od = p.OpenDrive('n')\n" + net.add() + "od.adjust_startpoints()\ns0 = (fx0, fy0, fh0)\ne0 = fwd(0, s0)\n"
                        if e1 == "start":
                            code += "s1 = shifted(%s, k, %s)\ne1 = fwd(1, s1)\n" % (leave, w)
                        else:
                            code += "e1 = shifted(flip(%s), k, %s)\ns1 = bwd(1, e1)\n" % (leave, w)
                        code += "w1, x1 = where(r1), expect(s1, e1)\n"
                        label = "%s attached by its %s at the %s of its neighbour, lane offset, lanes %s wide" % ("road" if kinds == "--" else "connecting road", e1, e0, w)
                        r = ctx.run(I, code, dict(net.binds(), k=T.nsym("k"), **nums(w="+")), label)
                        if ctx.no_raise(r, "C27-accepts", label):
                            ctx.eq(I, rule, "by-" + e1 if w == "w" else label, r["w1"], r["x1"], r.pc, "the placement")
    # offsets on every link: a road is displaced by that of its own link to the road it is placed from
    for n in (2, 3):
        for kinds, edges in networks(n):
            if any(kinds[i] == "c" and sum(i in (a[0], b[0]) for a, b in edges) > 1 for i in range(n)):
                # what lies behind a connecting road with an offset is not settled
                continue
            for fixed in range(n):
                if kinds[fixed] == "c":
                    continue
                for order in itertools.permutations(range(n)) if n == 2 else [(0, 1, 2), (2, 1, 0)]:
                    for some in (0, 1, 2):
                        net = Net(kinds, edges, (fixed,), order)
                        binds = net.binds()
                        for k, (a, b) in enumerate(edges):
                            for x, y in ((a, b), (b, a)):
                                if not (kinds[x[0]] == "-" and kinds[y[0]] == "c") and (some == 0 or (x[1] == "start") == (some == 1)):
                                    net.offsets[x] = "k%d%s" % (x[0], x[1])
                                    binds["k%d%s" % (x[0], x[1])] = T.nsym("k%d%s" % (x[0], x[1]))
                        exp, reached = net.expected()
                        I = pool.get()
                        body = NET + net.build(deco=False) + "od = p.OpenDrive('n')\n" + net.add() + "od.adjust_startpoints()\n" + exp
                        for i in sorted(reached):
                            body += "w{0} = where(r{0})\nx{0} = expect(s{0}, e{0})\n".format(i)
                        r = ctx.run(I, body, binds, net.label())
                        if ctx.no_raise(r, "C27-accepts", net.label()):
                            placed(ctx, I, "C27-offsets", net, r, sorted(reached))
    # the roads a plan view of real geometries joins
    for e0 in ENDS:
        for e1 in ENDS:
            I = pool.get()
            add = {"end": "add_successor", "start": "add_predecessor"}
            code = NET + """
def mkr(rid, gs, start=None):
    pv = p.PlanView() if start is None else p.PlanView(*start)
    for g in gs:
        pv.add_geometry(g)
    return p.Road(rid, pv, lanes(1, 3))
a = mkr(1, [p.Line(L), p.Arc(c, length=L)], (fx, fy, fh))
b = mkr(2, [p.Spiral(c0, c0 + d, length=L), p.Arc(c, length=L), p.Line(L)])
a.%s(RD, 2, %s)
b.%s(RD, 1, %s)
od = p.OpenDrive('n')
od.add_road(b)
od.add_road(a)
od.adjust_roads_and_lanes()
pa = a.planview.get_%s_point()
pb = b.planview.get_%s_point()
got, want = pose(pb), pose(%s(pa))
g = list(b.planview.get_element())
first = (float(g[0].get('s')), float(g[0].get('x')), float(g[0].get('y')), np.cos(float(g[0].get('hdg'))), np.sin(float(g[0].get('hdg'))))
wfirst = (0,) + pose(b.planview.get_start_point())
""" % (add[e0], CP[e1], add[e1], CP[e0], e0, e1, "flip" if e0 == e1 else "ident")
            label = "roads of lines, arcs and spirals, %s to %s" % (e0, e1)
            r = ctx.run(I, code, nums("fx", "fy", "fh", "c0", L="+", c="nz", d="+"), label)
            if ctx.no_raise(r, "C27-accepts", label):
                ctx.eq(I, "C27-kinds", label, r["got"], r["want"], r.pc, "pose at the joint")
                ctx.eq(I, "C27-kinds", label + " first record", r["first"], r["wfirst"], r.pc, "the first record")
    pool.close()


# --------------------------------------------------------------------------------------------------
DOCS = """
def joined(rs):
    od = p.OpenDrive('n')
    for r in rs:
        od.add_road(r)
    return od
def sections(k, n):
    ls = p.Lanes()
    for j in range(k):
        sec = p.LaneSection(10 * j, p.Lane())
        for i in range(n):
            sec.add_left_lane(p.Lane(a=3))
            sec.add_right_lane(p.Lane(a=3))
        ls.add_lanesection(sec)
    return ls
def lanes(n, w):
    return sections(2, 2)
"""


def c29(ctx):
    jobs = []
    for n in (1, 2, 3):
        for kinds, edges in networks(n):
            jobs.append(lambda ctx, k=kinds, e=edges: c29_net(ctx, k, e))
    # two islands, one of which names a junction with the id of a road of the other
    jobs.append(c29_islands)
    jobs.append(c29_generated)
    ctx.parallel(jobs)


def c29_net(ctx, kinds, edges):
    """a junction id that equals a road id changes neither positions nor lane links nor the junction's connections"""
    ctx.ignore = ("date", "elementId", "junction")
    I = ctx.interp()
    n = len(kinds)
    used = {x for e in edges for x in e}
    free = [(i, e) for i in range(n) for e in ENDS if (i, e) not in used]
    ids = ["11", "'12'", "13"][:n]
    for order, contact in [(o, c) for o in itertools.permutations(range(n)) for c in range(3)] if n < 3 else [((0, 1, 2), 0), ((2, 1, 0), 1), ((1, 0, 2), 2)]:
        runs = []
        for jid in ["77"] + ids + (["'11'"] if n < 3 else []):
            net = Net(kinds, edges, (), order, ids, jid)
            net.contact = contact
            code = NET + DOCS + net.build()
            for i, e in free:
                # every end that is not joined leads to the junction
                code += "r%d.%s(JN, %s%s)\n" % (i, "add_successor" if e == "end" else "add_predecessor", jid, ("", ", S", ", E_")[contact])
            code += "od = p.OpenDrive('n')\n" + net.add() + "od.adjust_roads_and_lanes()\nx = od.get_element()\n"
            conn = [i for i in range(n) if kinds[i] == "c" and all((i, e) in used for e in ENDS)]
            code += "js = list(p.create_junction([%s], 77, [%s]).get_element())\n" % (", ".join("r%d" % i for i in conn), ", ".join("r%d" % i for i in range(n)))
            label = "junction id %s, %s" % (jid, net.label())
            r = ctx.run(I, code, net.binds(), label)
            if not ctx.no_raise(r, "C29-accepts", label):
                break
            runs.append((label, r))
        for label, r in runs[1:]:
            ctx.current = label
            same_docs(ctx, I, "C29-same", label, r, runs[0][1])
    ctx.done(I)


def same_docs(ctx, I, rule, label, r, r0, lists=("js",)):
    from .heap import both, same_xml, xml_list

    same_xml(ctx, I, rule, label, r, "x", r0, "x")
    for l in lists:
        xml_list(ctx, I, rule, label + " " + l, r, l, r0, l)


def c29_islands(ctx):
    I = ctx.interp()
    for jid in ("77", "1", "2", "'1'", "'2'"):
        for e1 in ENDS:
            for e2 in ENDS:
                for k in ("-1", jid):
                    add = {"end": "add_successor", "start": "add_predecessor"}
                    for order in ("ab", "ba"):
                        code = NET + "a, b = mk(1, 1, None, -1), mk(2, 2, None, %s)\na.%s(JN, %s)\nb.%s(JN, %s)\nod = p.OpenDrive('n')\n" % (k, add[e1], jid, add[e2], jid)
                        code += "".join("od.add_road(%s)\n" % x for x in order) + "od.adjust_roads_and_lanes()\n"
                        label = "two roads that only share junction %s (%s, %s), added %s" % (jid, e1, e2, order)
                        r = ctx.run(I, code, UFS, label)
                        ctx.raises(I, r, "C29-unconnected", label, "UndefinedRoadNetwork", what="positioning")
    # a road at a junction of its own id, and junction ids of no road
    for jid in ("1", "2", "77", "'x'"):
        code = NET + "a, b = mk(1, 1, None, -1), mk(2, 2, None, -1)\na.add_predecessor(JN, %s)\na.add_successor(RD, 2, S)\nb.add_predecessor(RD, 1, E_)\nb.add_successor(JN, %s)\nod = p.OpenDrive('n')\nod.add_road(b)\nod.add_road(a)\nod.adjust_roads_and_lanes()\n" % (jid, jid)
        code += "s2 = (0, 0, 0)\ne2 = fwd(2, s2)\ne1 = s2\ns1 = bwd(1, e1)\nw, x = (where(a), where(b)), (expect(s1, e1), expect(s2, e2))\n"
        r = ctx.run(I, code, UFS, "joined roads with junction %s at the other ends" % jid)
        if ctx.no_raise(r, "C29-accepts", jid):
            ctx.eq(I, "C29-placed", "junction %s" % jid, r["w"], r["x"], r.pc, "the placement")
    ctx.done(I)


def c29_generated(ctx):
    """the junction generator with a junction id that is also a road id"""
    ctx.ignore = ("date", "elementId", "junction")
    I = ctx.interp()
    runs = []
    for jid in ("77", "1", "2", "100", "'3'"):
        code = NET + DOCS + """
a, b, c = p.create_straight_road(1, L), p.create_straight_road(2, L), p.create_straight_road(3, L)
turns = p.create_junction_roads([a, b, c], [0, np.pi / 2, np.pi], rad, %s, startnum=100)
x = p.create_junction(turns, 77, [a, b, c]).get_element()
od = joined([a, b, c] + turns)
od.adjust_roads_and_lanes()
js = list(od.get_element())[1:]
""" % jid
        r = ctx.run(I, code, nums(L="+", rad="+"), "generated junction %s" % jid)
        if not ctx.no_raise(r, "C29-accepts", "generated junction %s" % jid):
            break
        runs.append((jid, r))
    for jid, r in runs[1:]:
        ctx.current = "generated junction %s" % jid
        same_docs(ctx, I, "C29-generated", "junction %s" % jid, r, runs[0][1])
    ctx.done(I)


# --------------------------------------------------------------------------------------------------
def c30(ctx):
    jobs = []
    for n in (1, 2, 3):
        for kinds, edges in networks(n):
            jobs.append(lambda ctx, k=kinds, e=edges: c30_net(ctx, k, e))
    for kinds, edges in long_nets() + ([(k, e) for k, e in networks(4)] if ctx.deep else []):
        jobs.append(lambda ctx, k=kinds, e=edges: c30_net(ctx, k, e, True))
    jobs.append(c30_model)
    ctx.parallel(jobs)


def connected(edges, roads):
    roads = set(roads)
    if not roads:
        return True
    seen, todo = set(), [min(roads)]
    while todo:
        i = todo.pop()
        if i in seen:
            continue
        seen.add(i)
        for a, b in edges:
            for u, v in ((a[0], b[0]), (b[0], a[0])):
                if u == i and v in roads:
                    todo.append(v)
    return seen == roads


def c30_net(ctx, kinds, edges, short=False):
    ctx.ignore = ("date",)
    I = ctx.interp()
    n = len(kinds)
    adj = "od.adjust_roads_and_lanes()\n"
    deco = 0
    for order in itertools.permutations(range(n)) if n < 4 else [tuple(range(n)), tuple(reversed(range(n)))]:
        for fixed in [()] + ([(0,), (n - 1,)] if n > 1 and n < 4 else []):
            net = Net(kinds, edges, fixed, order)
            deco += 1
            head = NET + DOCS + net.build(deco=deco % 2 == 1) + "od = p.OpenDrive('n')\n"
            if not connected(edges, range(n)):
                continue
            label = net.label()
            r0 = ctx.run(I, head + net.add() + adj + "x = od.get_element()\njs = []\n", net.binds(), label)
            if not ctx.no_raise(r0, "C30-accepts", label):
                continue
            later = [("adjusting again", head + net.add() + adj + adj), ("adjusting three times", head + net.add() + adj + adj + adj)]
            if not short:
                later.append(("starting points adjusted again", head + net.add() + adj + "od.adjust_startpoints()\n"))
            for m in range(1, n):
                pre = order[:m]
                if connected(edges, pre) and not (fixed and fixed[0] not in pre):
                    later.append(("%d roads adjusted before the rest is added" % m, head + net.add(pre) + adj + net.add(order[m:]) + adj))
            if n > 2 and not fixed:
                for cuts in itertools.combinations(range(1, n), 2):
                    if all(connected(edges, order[:c]) for c in cuts):
                        a, b = cuts
                        later.append(("adjusted after %d, %d and all roads" % cuts, head + net.add(order[:a]) + adj + net.add(order[a:b]) + adj + net.add(order[b:]) + adj))
            for what, code in later:
                r = ctx.run(I, code + "x = od.get_element()\njs = []\n", net.binds(), "%s: %s" % (what, label))
                if ctx.no_raise(r, "C30-accepts", what):
                    same_docs(ctx, I, "C30-same", what, r, r0)
    ctx.done(I)


def c30_model(ctx):
    """generated roads and a junction; adjusting between additions"""
    ctx.ignore = ("date",)
    I = ctx.interp()
    head = NET + DOCS + """
def net():
    rs = [p.create_straight_road(1, L), p.create_road([p.Line(L), p.Arc(c, length=L)], 2), p.create_straight_road(3, L)]
    turns = p.create_junction_roads(rs, [0, np.pi / 2, np.pi], rad, 9, startnum=100)
    j = p.create_junction(turns, 9, rs)
    return rs, turns, j
rs, turns, j = net()
od = p.OpenDrive('n')
"""
    b = nums(L="+", c="nz", rad="+")
    adj = "od.adjust_roads_and_lanes()\n"
    end = "x = od.get_element()\njs = []\n"
    r0 = ctx.run(I, head + "for r in rs + turns:\n    od.add_road(r)\nod.add_junction(j)\n" + adj + end, b, "generated network")
    if ctx.no_raise(r0, "C30-accepts", "generated network"):
        for what, code in (
            ("adjusting again", head + "for r in rs + turns:\n    od.add_road(r)\nod.add_junction(j)\n" + adj + adj),
            ("adjusted before the junction is added", head + "for r in rs + turns:\n    od.add_road(r)\n" + adj + "od.add_junction(j)\n" + adj),
        ):
            r = ctx.run(I, code + end, b, "generated network: " + what)
            if ctx.no_raise(r, "C30-accepts", what):
                same_docs(ctx, I, "C30-same", "generated network: " + what, r, r0)
    ctx.done(I)
