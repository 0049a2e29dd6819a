"""C31, C32, C36: lane links between roads, for every shape up to the cut-off, and the junction connections that repeat them."""
import itertools

from .. import terms as T
from ..harness import decorated
from .serial import nums
from .net import Pool, NET

PRE = NET + """
def road(rid, secs, junction=-1, ss=None):
    # secs: lanes to the left and right of every section; ss: their stations
    ls = p.Lanes()
    for j in range(len(secs)):
        sec = p.LaneSection(10 * j if ss is None else ss[j], p.Lane())
        for i in range(secs[j][0]):
            sec.add_left_lane(p.Lane(a=3))
        for i in range(secs[j][1]):
            sec.add_right_lane(p.Lane(a=3))
        ls.add_lanesection(sec)
    pv = p.PlanView()
    pv.add_geometry(p.Line(100))
    return p.Road(rid, pv, ls, road_type=junction)
def linked(road, j, lid):
    # what is written for one lane: ids of predecessors, of successors, number of links
    secs = [e for e in road.lanes.get_element() if e.tag == 'laneSection']
    for side in secs[j]:
        for lane in side:
            if lane.get('id') == str(lid):
                ls = [l for k in lane if k.tag == 'link' for l in k]
                return (tuple([l.get('id') for l in ls if l.tag == 'predecessor']), tuple([l.get('id') for l in ls if l.tag == 'successor']), len(ls))
    return None
"""


def ids(l, r):
    return list(range(l, 0, -1)) + [0] + list(range(-1, -r - 1, -1))


class Road:
    def __init__(self, var, rid, secs, junction="-1"):
        self.var, self.rid, self.secs, self.junction = var, rid, list(secs), junction
        self.at = None  # stations of the sections
        self.links = []  # (which, type, id, contact, offset)
        self.want = {}  # (section, lane) -> {"p": [...], "s": [...]}

    def pred(self, other, contact="E_", kind="RD", off=None):
        self.links.append("%s.add_predecessor(%s, %s, %s%s)" % (self.var, kind, other, contact, "" if off is None else ", lane_offset=" + off))
        return self

    def succ(self, other, contact="S", kind="RD", off=None):
        self.links.append("%s.add_successor(%s, %s, %s%s)" % (self.var, kind, other, contact, "" if off is None else ", lane_offset=" + off))
        return self

    def build(self):
        return "%s = road(%s, %s, %s%s)\n" % (self.var, self.rid, self.secs, self.junction, "" if self.at is None else ", [%s]" % ", ".join(self.at)) + "".join(l + "\n" for l in self.links)

    def expect(self, sec, lane, which, target):
        self.want.setdefault((sec % len(self.secs), lane), {"p": [], "s": []})[which].append(target)

    def observed(self):
        return "(%s,)" % ", ".join("linked(%s, %d, %d)" % (self.var, j, i) for j, (l, r) in enumerate(self.secs) for i in ids(l, r))

    def expected(self):
        out = []
        for j, (l, r) in enumerate(self.secs):
            for i in ids(l, r):
                w = self.want.get((j, i), {"p": [], "s": []})
                tup = lambda xs: "(%s)" % "".join("str(%s), " % x for x in xs)
                out.append("(%s, %s, %d)" % (tup(w["p"]), tup(w["s"]), len(w["p"]) + len(w["s"])))
        return "(%s,)" % ", ".join(out)

    def describe(self):
        return "road %s (sections %s%s)" % (self.rid, self.secs, "" if self.junction == "-1" else ", connecting")


def consecutive(a, b):
    """expected reciprocal links of a followed by b"""
    for i in ids(*a.secs[-1]):
        if i:
            a.expect(-1, i, "s", i)
            b.expect(0, i, "p", i)


def manual(road, links, how="before"):
    """lane links set by hand: (section, lane, "p" or "s", id); they are kept next to those found"""
    for sec, lane, which, target in links:
        sec %= len(road.secs)
        secs = "%s.lanes.lanesections[%d]" % (road.var, sec)
        at = "%s.%s[%d]" % (secs, "leftlanes" if lane > 0 else "rightlanes", abs(lane) - 1) if lane else secs + ".centerlane"
        road.links.append("%s.add_link('%s', %s)" % (at, "predecessor" if which == "p" else "successor", target))
        road.expect(sec, lane, which, target)


def check(ctx, I, rule, label, roads, how, binds={}):
    code = PRE + "".join(r.build() for r in roads) + how
    for k, r in enumerate(roads):
        code += "x%d, w%d = %s, %s\n" % (k, k, r.observed(), r.expected())
    label = "%s: %s; %s" % (label, ", ".join(r.describe() for r in roads), "; ".join(l for r in roads for l in r.links))
    run = ctx.run(I, code, binds, label)
    if ctx.no_raise(run, rule + "-accepts", label):
        for k, r in enumerate(roads):
            ctx.eq(I, rule, "%s: lanes of road %s, (predecessors, successors, links) per lane" % (label, r.rid), run["x%d" % k], run["w%d" % k], run.pc, "the lane links")


def by_pairs(roads, order):
    return "".join("p.create_lane_links(%s, %s)\n" % (roads[i].var, roads[j].var) for i, j in order)


def by_network(roads, order, times=1):
    return "od = p.OpenDrive('n')\n" + "".join("od.add_road(%s)\n" % roads[i].var for i in order) + "od.adjust_roads_and_lanes()\n" * times


# --------------------------------------------------------------------------------------------------
def c31(ctx):
    ctx.parallel([decorated("Road Lane", j) for j in (c31_chains, c31_sections, c31_mismatch, c31_none, c31_manual)] + [c31_chains, c31_sections, c31_mismatch, c31_shapes, c31_none, c31_ids, c31_manual])


def c31_shapes(ctx):
    pool = Pool(ctx)
    for l, r in itertools.product(ctx.sizes(4), repeat=2):
        for sa, sb in (([(l, r)], [(l, r)]), ([(1, 0), (l, r)], [(l, r), (0, 2)])):
            for how in ("ab", "ba"):
                a, b = Road("a", "1", sa).succ("2"), Road("b", "2", sb).pred("1")
                consecutive(a, b)
                check(ctx, pool.get(), "C31-linked", "linked directly, " + how, [a, b], by_pairs([a, b], [(0, 1)] if how == "ab" else [(1, 0)]))
                a, b = Road("a", "1", sa).succ("2"), Road("b", "2", sb).pred("1")
                consecutive(a, b)
                check(ctx, pool.get(), "C31-linked", "in a network, " + how, [a, b], by_network([a, b], (0, 1) if how == "ab" else (1, 0)))
    ctx.sample("all numbers of left and right lanes up to %d, roads of one and two lane sections, linked directly and through a network, both orders" % max(ctx.sizes(4)))
    pool.close()


def c31_sections(ctx):
    pool = Pool(ctx)
    shapes = {1: [(1, 2)], 2: [(2, 1), (1, 2)], 3: [(0, 1), (3, 3), (1, 2)], 4: [(1, 1), (1, 2), (0, 0), (1, 2)]}
    for n, m in itertools.product((1, 2, 3, 4), repeat=2):
        for how in ("ab", "ba", "network"):
            a, b = Road("a", "1", shapes[n]).succ("2"), Road("b", "2", list(reversed(shapes[m]))).pred("1")
            consecutive(a, b)
            hows = {"ab": by_pairs([a, b], [(0, 1)]), "ba": by_pairs([a, b], [(1, 0)]), "network": by_network([a, b], (1, 0))}
            check(ctx, pool.get(), "C31-sections", "sections, " + how, [a, b], hows[how])
    # whatever stations the sections have
    b6 = nums(*["q%d" % k for k in range(6)])
    for at_a, at_b in ((["20", "10", "0"], ["20", "10", "0"]), (["0", "0", "0"], ["5", "5", "5"]), (["q0", "q1", "q2"], ["q3", "q4", "q5"]), (["100", "200", "300"], ["-5", "7", "-9"])):
        for how in ("ab", "ba", "network"):
            a, b = Road("a", "1", [(2, 1), (0, 1), (1, 2)]).succ("2"), Road("b", "2", [(1, 2), (3, 1), (2, 2)]).pred("1")
            a.at, b.at = at_a, at_b
            consecutive(a, b)
            hows = {"ab": by_pairs([a, b], [(0, 1)]), "ba": by_pairs([a, b], [(1, 0)]), "network": by_network([a, b], (1, 0))}
            check(ctx, pool.get(), "C31-sections", "sections at %s and %s, %s" % (at_a, at_b, how), [a, b], hows[how], b6)
    # sections that agree everywhere: still only those that touch
    for n, m in itertools.product((1, 2, 3), repeat=2):
        a, b = Road("a", "1", [(1, 1)] * n).succ("2"), Road("b", "2", [(1, 1)] * m).pred("1")
        consecutive(a, b)
        check(ctx, pool.get(), "C31-sections", "equal sections", [a, b], by_network([a, b], (0, 1)))
    pool.close()


def c31_chains(ctx):
    pool = Pool(ctx)
    names = "abcd"
    for n in (3, 4):
        for order in itertools.permutations(range(n)):
            for secs in ([(1, 2)], [(1, 2), (2, 2), (1, 2)]):
                rs = [Road(names[i], str(i + 1), secs) for i in range(n)]
                for i in range(n - 1):
                    rs[i].succ(rs[i + 1].rid)
                    rs[i + 1].pred(rs[i].rid)
                    consecutive(rs[i], rs[i + 1])
                check(ctx, pool.get(), "C31-chain", "chain added in order %s" % (order,), rs, by_network(rs, order))
    # rings
    for n in (2, 3):
        for order in itertools.permutations(range(n)):
            for secs in ([(1, 2)], [(1, 2), (2, 2), (1, 2)]):
                rs = [Road(names[i], str(i + 1), secs) for i in range(n)]
                for i in range(n):
                    j = (i + 1) % n
                    rs[i].succ(rs[j].rid)
                    rs[j].pred(rs[i].rid)
                    consecutive(rs[i], rs[j])
                check(ctx, pool.get(), "C31-ring", "ring linked in order %s" % (order,), rs, by_pairs(rs, list(itertools.combinations(order, 2))))
                rs2 = [Road(names[i], str(i + 1), secs) for i in range(n)]
                for i in range(n):
                    rs2[i].links, rs2[i].want = rs[i].links, rs[i].want
                check(ctx, pool.get(), "C31-ring", "ring in a network, added in order %s" % (order,), rs2, by_network(rs2, order))
    # a ring whose two joints have different numbers of lanes
    a, b = Road("a", "1", [(1, 2), (2, 0)]).succ("2").pred("2"), Road("b", "2", [(2, 0), (1, 2)]).succ("1").pred("1")
    consecutive(a, b)
    consecutive(b, a)
    check(ctx, pool.get(), "C31-ring", "ring with changing lanes", [a, b], by_network([a, b], (0, 1)))
    # linked once, however often asked
    for n in (2, 3):
        for how in range(4):
            rs = [Road(names[i], str(i + 1), [(2, 1)]) for i in range(n)]
            for i in range(n - 1):
                rs[i].succ(rs[i + 1].rid)
                rs[i + 1].pred(rs[i].rid)
                consecutive(rs[i], rs[i + 1])
            do = [by_pairs(rs, [(0, 1), (0, 1)] + [(i, i + 1) for i in range(n - 1)]), by_pairs(rs, [(1, 0), (0, 1)] + [(i + 1, i) for i in range(n - 1)]), by_network(rs, range(n), 2), by_pairs(rs, [(i, i + 1) for i in range(n - 1)]) + by_network(rs, range(n))][how]
            check(ctx, pool.get(), "C31-once", "asked several times", rs, do)
    pool.close()


MISMATCH = """
def attempt():
    try:
        %s
    except Exception as e:
        return type(e).__name__
    return 'accepted'
out = attempt()
"""


def c31_mismatch(ctx):
    pool = Pool(ctx)
    some = [(1, 1), (1, 2), (2, 1), (2, 2), (0, 1), (1, 0), (3, 2)]
    for la, lb in itertools.permutations(some, 2):
        for extra in (False, True):
            sa = [la] if not extra else [lb, la]
            sb = [lb] if not extra else [lb, la]
            a, b = Road("a", "1", sa).succ("2"), Road("b", "2", sb).pred("1")
            for call in ("p.create_lane_links(a, b)", "p.create_lane_links(b, a)"):
                I = pool.get()
                label = "%s: %s, %s" % (call, a.describe(), b.describe())
                r = ctx.run(I, PRE + a.build() + b.build() + MISMATCH % call + "xa, wa, xb, wb = %s, %s, %s, %s\n" % (a.observed(), a.expected(), b.observed(), b.expected()), {}, label)
                if ctx.no_raise(r, "C31-mismatch", label):
                    ctx.eq(I, "C31-mismatch", label, r["out"], "NotSameAmountOfLanesError", r.pc, "the error raised")
                    ctx.eq(I, "C31-mismatch", label + ": lanes of the first road", r["xa"], r["wa"], r.pc, "the lane links after the refusal")
                    ctx.eq(I, "C31-mismatch", label + ": lanes of the second road", r["xb"], r["wb"], r.pc, "the lane links after the refusal")
            I = pool.get()
            r = ctx.run(I, PRE + a.build() + b.build() + by_network([a, b], (1, 0)), {}, "network of " + label)
            ctx.raises(I, r, "C31-mismatch", "network of " + label, "NotSameAmountOfLanesError", what="adjusting")
    pool.close()


def c31_none(ctx):
    """roads that are not consecutive"""
    pool = Pool(ctx)
    cases = [
        ("no links", [], []),
        ("only the first names the second", [("succ", "2", "S", "RD")], []),
        ("only the second names the first", [], [("pred", "1", "E_", "RD")]),
        ("end to end", [("succ", "2", "E_", "RD")], [("succ", "1", "E_", "RD")]),
        ("start to start", [("pred", "2", "S", "RD")], [("pred", "1", "S", "RD")]),
        ("a junction with the id of the successor", [("succ", "2", "S", "JN")], [("pred", "1", "E_", "JN")]),
        ("a junction with the id of the successor on one side", [("succ", "2", "S", "JN")], [("pred", "1", "E_", "RD")]),
        ("a junction with the id of the predecessor on one side", [("succ", "2", "S", "RD")], [("pred", "1", "E_", "JN")]),
        ("a successor elsewhere", [("succ", "3", "S", "RD")], [("pred", "1", "E_", "RD")]),
        ("a predecessor elsewhere", [("succ", "2", "S", "RD")], [("pred", "3", "E_", "RD")]),
        ("ids that only begin alike", [("succ", "22", "S", "RD")], [("pred", "11", "E_", "RD")]),
        ("both lead elsewhere", [("succ", "3", "S", "RD"), ("pred", "4", "E_", "RD")], [("succ", "5", "S", "RD"), ("pred", "6", "E_", "RD")]),
    ]
    for what, la, lb in cases:
        for secs in ([(1, 2)], [(1, 2), (1, 2)], [(0, 1)]):
            for order in ((0, 1), (1, 0)):
                rs = [Road("a", "1", secs), Road("b", "2", secs)]
                for r, ls in zip(rs, (la, lb)):
                    for w, rid, cp, kind in ls:
                        getattr(r, w)(rid, cp, kind)
                check(ctx, pool.get(), "C31-none", what, rs, by_pairs(rs, [order]))
    # in networks that can be positioned
    for what, la, lb in cases[3:5]:
        for order in ((0, 1), (1, 0)):
            rs = [Road("a", "1", [(1, 2)]), Road("b", "2", [(2, 1)])]
            for r, ls in zip(rs, (la, lb)):
                for w, rid, cp, kind in ls:
                    getattr(r, w)(rid, cp, kind)
            check(ctx, pool.get(), "C31-none", what + " in a network", rs, by_network(rs, order))
    # the two outer roads of a chain; a road between two others
    rs = [Road("a", "1", [(1, 1)]).succ("2"), Road("b", "2", [(1, 1)]).pred("1").succ("3"), Road("c", "3", [(1, 1)]).pred("2")]
    check(ctx, pool.get(), "C31-none", "outer roads of a chain", rs, by_pairs(rs, [(0, 2), (2, 0)]))
    pool.close()


def c31_ids(ctx):
    pool = Pool(ctx)
    for ra, rb in itertools.product(("1", "'1'", "'left'", "'1 a'", "10"), ("2", "'2'", "'right'", "100")):
        for la, lb in ((rb, ra), (other(rb), other(ra)), (rb, other(ra)), (other(rb), ra)):
            a, b = Road("a", ra, [(1, 2)]).succ(la), Road("b", rb, [(1, 2)]).pred(lb)
            consecutive(a, b)
            check(ctx, pool.get(), "C31-ids", "ids", [a, b], by_pairs([a, b], [(0, 1)]))
            check(ctx, pool.get(), "C31-ids", "ids in a network", [a, b], by_network([a, b], (1, 0)))
    pool.close()


def c31_manual(ctx):
    """lanes that are linked by hand already: what is found is added, what was there stays"""
    pool = Pool(ctx)
    sets = [
        ([(-1, 1, "s", "5")], []),
        ([(-1, -1, "s", "'5'"), (-1, -2, "p", "6")], [(0, -1, "s", "4"), (0, -2, "p", "1")]),
        ([(-1, 1, "p", "1")], [(0, 1, "s", "1")]),
        ([], [(0, 1, "p", "7"), (0, -1, "p", "7"), (0, -2, "p", "-7")]),
        # any id but that of the lane itself
        ([(-1, 1, "s", "1 + k"), (-1, -1, "s", "-1 - k")], [(0, 1, "p", "1 + k"), (0, -2, "p", "-2 + k")]),
        ([(0, 0, "s", "0"), (-1, 0, "p", "0")], [(0, 0, "p", "k")]),
    ]
    for secs in ([(1, 2)], [(1, 2), (1, 2)]):
        for la, lb in sets:
            for how in range(4):
                a, b = Road("a", "1", secs).succ("2"), Road("b", "2", secs).pred("1")
                manual(a, la)
                manual(b, lb)
                consecutive(a, b)
                do = [by_pairs([a, b], [(0, 1)]), by_pairs([a, b], [(1, 0), (0, 1)]), by_network([a, b], (0, 1)), by_network([a, b], (1, 0), 2)][how]
                check(ctx, pool.get(), "C31-manual", "lanes linked by hand before", [a, b], do, nums(k="+"))
    pool.close()


def other(rid):
    """the same id as the other type"""
    return rid[1:-1] if rid.startswith("'") and rid[1:-1].isdigit() else "'%s'" % rid if rid.isdigit() else rid


# --------------------------------------------------------------------------------------------------
def ahead(c, contact, off, which):
    """expected lane links of a connecting road whose link names the contact point of the other road"""
    # travelling out of the connecting road's end into a start (or into its start out of an end) keeps the side
    same = (contact == "S") == (which == "s")
    sec = -1 if which == "s" else 0
    for i in ids(*c.secs[sec]):
        if i:
            c.expect(sec, i, which, "%d + (%s)" % (i if same else -i, off or "0"))


def c32(ctx):
    jobs = [lambda ctx, c=c: c32_contacts(ctx, *c) for c in itertools.product(("S", "E_"), repeat=2)]
    split = [lambda ctx, f=f, c=c: f(ctx, *c) for f in (c32_shapes, c32_turned) for c in itertools.product(("S", "E_"), repeat=2)]
    rest = split + [c32_partial, c32_many, c32_manual]
    ctx.parallel([decorated("Road Lane", j) for j in rest] + rest + jobs + [c32_ids])


def joined(secs, pc, sc, po, so, secs_out=((3, 3),), ids_=("1", "2", "100"), jid="7"):
    a = Road("a", ids_[0], secs_out)
    b = Road("b", ids_[1], secs_out)
    c = Road("c", ids_[2], secs, jid)
    (a.succ if pc == "E_" else a.pred)(jid, "None", "JN")
    (b.pred if sc == "S" else b.succ)(jid, "None", "JN")
    c.pred(ids_[0], pc, "RD", po)
    c.succ(ids_[1], sc, "RD", so)
    ahead(c, pc, po, "p")
    ahead(c, sc, so, "s")
    return [a, b, c]


def turned(secs, pc, sc, po, so, rid="1"):
    """a connecting road that leads from a road back to the same road"""
    a, c = Road("a", rid, ((3, 3), (2, 3))), Road("c", "100", secs, "7")
    for cp in sorted({pc, sc}):
        (a.succ if cp == "E_" else a.pred)("7", "None", "JN")
    c.pred(rid, pc, "RD", po).succ(rid, sc, "RD", so)
    ahead(c, pc, po, "p")
    ahead(c, sc, so, "s")
    return [a, c]


def c32_turned(ctx, pc, sc):
    pool = Pool(ctx)
    for po, so in ((None, None), ("k", None), (None, "m"), ("k", "m")):
        for secs in ([(1, 1)], [(2, 1)], [(1, 2), (2, 1)], [(1, 2), (3, 0), (0, 2)]):
            for order in ((0, 1), (1, 0)):
                rs = turned(secs, pc, sc, po, so, "1" if po == so else "'in'")
                check(ctx, pool.get(), "C32-turned", "back to the same road", rs, by_pairs(rs, [order]), OFF)
                rs = turned(secs, pc, sc, po, so, "1" if po == so else "'in'")
                check(ctx, pool.get(), "C32-turned", "back to the same road, in a network", rs, by_network(rs, order, 1 + (po == so)), OFF)
    # next to a connecting road to another road
    for order in itertools.permutations(range(4)) if ctx.deep else [(0, 1, 2, 3), (3, 2, 1, 0), (1, 3, 0, 2)]:
        a, b, c = joined([(2, 1)], pc, sc, "k", "m")
        d = Road("d", "101", [(1, 1)], "7").pred("1", pc).succ("1", pc)
        ahead(d, pc, None, "p")
        ahead(d, pc, None, "s")
        check(ctx, pool.get(), "C32-turned", "one back to the same road, one to another", [a, b, c, d], by_network([a, b, c, d], order), OFF)
    pool.close()


def flip_ids(c, ra, rb, which):
    """the links of the connecting road name the roads by the other type"""
    for k, (rid, w) in enumerate(zip((ra, rb), which)):
        if w:
            c.links[k] = c.links[k].replace("RD, %s," % rid, "RD, %s," % other(rid))


OFF = {"k": T.nsym("k"), "m": T.nsym("m")}


def c32_contacts(ctx, pc, sc):
    pool = Pool(ctx)
    for po, so in ((None, None), ("k", None), (None, "m"), ("k", "m")):
        for secs in ([(1, 1)], [(2, 1)], [(1, 2), (2, 1)], [(1, 2), (3, 0), (0, 2)]):
            for order in itertools.permutations(range(3)) if ctx.deep or po == so else [(0, 1, 2), (2, 1, 0)]:
                rs = joined(secs, pc, sc, po, so)
                check(ctx, pool.get(), "C32-network", "added in order %s" % (order,), rs, by_network(rs, order), OFF)
            for order in ([(2, 0), (2, 1)], [(0, 2), (1, 2)], [(0, 2), (2, 1)], [(1, 2), (2, 0), (0, 1)]):
                rs = joined(secs, pc, sc, po, so)
                if order[0] != (2, 0):
                    # sections need not be at rising stations
                    rs[2].at = ["20", "10", "0"][: len(secs)]
                check(ctx, pool.get(), "C32-linked", "linked in order %s" % (order,), rs, by_pairs(rs, order), OFF)
    ctx.sample("every pair of contact points, lane offsets given or not (unbounded), up to three sections, every order of adding")
    pool.close()


def c32_shapes(ctx, pc, sc):
    pool = Pool(ctx)
    for l, r in itertools.product(ctx.sizes(4), repeat=2):
        rs = joined([(l, r)], pc, sc, "k", "m")
        check(ctx, pool.get(), "C32-shapes", "lanes", rs, by_network(rs, (2, 0, 1)), OFF)
    pool.close()


def c32_partial(ctx):
    """connecting roads without one of the links, or with links to something else"""
    pool = Pool(ctx)
    for cp in ("S", "E_"):
        for which in ("pred", "succ"):
            for rest in (None, ("99", "S", "RD"), ("1", "S", "JN"), ("7", "None", "JN")):
                for order in ((0, 1), (1, 0)):
                    a, c = Road("a", "1", [(2, 2)]), Road("c", "100", [(1, 2), (2, 1)], "7")
                    (a.succ if cp == "E_" else a.pred)("7", "None", "JN")
                    getattr(c, which)("1", cp, "RD", "k")
                    ahead(c, cp, "k", which[0])
                    if rest:
                        getattr(c, "succ" if which == "pred" else "pred")(rest[0], rest[1], rest[2])
                    check(ctx, pool.get(), "C32-partial", "one link", [a, c], by_pairs([a, c], [order]), OFF)
                    if rest is None or rest[2] == "JN":
                        check(ctx, pool.get(), "C32-partial", "one link, in a network", [a, c], by_network([a, c], order), OFF)
    # no link at all, and links to other roads or to junctions with the road's id
    for ls in ([], [("pred", "3", "E_", "RD"), ("succ", "4", "S", "RD")], [("pred", "1", "E_", "JN")], [("succ", "1", "S", "JN")], [("pred", "11", "E_", "RD")]):
        for order in ((0, 1), (1, 0)):
            a, c = Road("a", "1", [(1, 1)]), Road("c", "100", [(1, 1)], "7")
            for w, rid, cp, kind in ls:
                getattr(c, w)(rid, cp, kind)
            check(ctx, pool.get(), "C32-none", "not joined", [a, c], by_pairs([a, c], [order]))
    # two connecting roads of one junction
    for order in ((0, 1), (1, 0)):
        cs = [Road("c", "100", [(1, 1)], "7").pred("1").succ("2"), Road("d", "101", [(1, 1)], "7").pred("1").succ("3")]
        check(ctx, pool.get(), "C32-none", "two connecting roads", cs, by_pairs(cs, [order]))
        cs = [Road("c", "100", [(1, 1)], "7"), Road("d", "101", [(1, 1)], "7")]
        check(ctx, pool.get(), "C32-none", "two connecting roads without links", cs, by_pairs(cs, [order]))
        # connecting roads that lead from one to the other
        for ec, ed in itertools.product("ps", repeat=2):
            for jid in ("8", "7"):
                for oc, od in ((None, None), ("k", "m")):
                    c, d = Road("c", "100", [(2, 1), (1, 2), (2, 1)], "7"), Road("d", "101", [(2, 1), (1, 1), (2, 1)], jid)
                    cp = {"p": "S", "s": "E_"}
                    (c.succ if ec == "s" else c.pred)("101", cp[ed], "RD", oc)
                    (d.succ if ed == "s" else d.pred)("100", cp[ec], "RD", od)
                    ahead(c, cp[ed], oc, ec)
                    ahead(d, cp[ec], od, ed)
                    check(ctx, pool.get(), "C32-joined", "connecting roads joined", [c, d], by_pairs([c, d], [order]), OFF)
                    check(ctx, pool.get(), "C32-joined", "connecting roads joined, in a network", [c, d], by_network([c, d], order), OFF)
    pool.close()


def c32_many(ctx):
    """ordinary roads before and behind, several connecting roads"""
    pool = Pool(ctx)
    for order in [(0, 1, 2, 3, 4, 5), (5, 4, 3, 2, 1, 0), (4, 0, 5, 2, 1, 3), (1, 4, 2, 5, 3, 0)]:
        for pc, sc in itertools.product(("S", "E_"), repeat=2):
            a0, a, b, b0 = (Road(v, i, [(2, 2)]) for v, i in (("a0", "10"), ("a", "1"), ("b", "2"), ("b0", "20")))
            c, d = Road("c", "100", [(2, 1)], "7"), Road("d", "101", [(1, 1), (1, 2)], "7")
            if pc == "E_":
                a.pred("10").succ("7", "None", "JN")
                a0.succ("1")
                consecutive(a0, a)
            else:
                a.succ("10").pred("7", "None", "JN")
                a0.pred("1")
                consecutive(a, a0)
            if sc == "S":
                b.succ("20").pred("7", "None", "JN")
                b0.pred("2")
                consecutive(b, b0)
            else:
                b.pred("20").succ("7", "None", "JN")
                b0.succ("2")
                consecutive(b0, b)
            c.pred("1", pc, "RD", "k").succ("2", sc, "RD", "m")
            ahead(c, pc, "k", "p")
            ahead(c, sc, "m", "s")
            # the other direction
            d.pred("2", sc).succ("1", pc)
            ahead(d, sc, None, "p")
            ahead(d, pc, None, "s")
            rs = [a0, a, b, b0, c, d]
            check(ctx, pool.get(), "C32-many", "added in order %s" % (order,), rs, by_network(rs, order), OFF)
            check(ctx, pool.get(), "C32-many", "linked in order %s" % (order,), rs, by_pairs(rs, list(itertools.combinations(order, 2))), OFF)
    pool.close()


def c32_manual(ctx):
    """lanes that are linked by hand already"""
    pool = Pool(ctx)
    for pc, sc in itertools.product(("S", "E_"), repeat=2):
        for links in ([(0, 1, "p", "1 + k")], [(0, -1, "p", "-1 - k"), (-1, 2, "s", "2 + k")], [(0, 1, "s", "-1"), (0, 2, "s", "2"), (-1, -1, "p", "1")], [(0, 0, "p", "0")]):
            for secs in ([(2, 1)], [(2, 1), (2, 1)]):
                for net in (0, 1):
                    if len(secs) == 1 and links[0][2] == "s":
                        continue
                    rs = joined(secs, pc, sc, None, None)
                    c = rs[2]
                    late, c.want = c.want, {}
                    manual(c, [(s, l, w, t if pc == "E_" or "k" not in t else t.replace("k", "(3 + k)")) for s, l, w, t in links])
                    for key, w in late.items():
                        for which in "ps":
                            for t in w[which]:
                                c.expect(key[0], key[1], which, t)
                    check(ctx, pool.get(), "C32-manual", "lanes linked by hand before", rs, by_network(rs, (0, 2, 1), 1 + net) if net else by_pairs(rs, [(0, 2), (2, 1)]), nums(k="+"))
    pool.close()


def c32_ids(ctx):
    pool = Pool(ctx)
    for ra, rb, rc in (("1", "2", "'100'"), ("'1'", "2", "100"), ("'in'", "'out'", "'turn'"), ("1", "11", "111"), ("100", "10", "1")):
        for flip in ((0, 0), (1, 0), (0, 1), (1, 1)):
            for jid in ("7", "1", "'j'", "0"):
                rs = joined([(2, 1)], "E_", "S", "k", "m", ids_=(ra, rb, rc), jid=jid)
                c = rs[2]
                c.links = ["c.add_predecessor(RD, %s, E_, lane_offset=k)" % (other(ra) if flip[0] else ra), "c.add_successor(RD, %s, S, lane_offset=m)" % (other(rb) if flip[1] else rb)]
                check(ctx, pool.get(), "C32-ids", "ids", rs, by_network(rs, (1, 2, 0)), OFF)
    pool.close()


# --------------------------------------------------------------------------------------------------
CONN = """
def conns(j):
    # incoming road, connecting road, contact point and the lane the junction links to each lane of the connecting road
    return [(e.get('incomingRoad'), e.get('connectingRoad'), e.get('contactPoint'), [(l.get('to'), l.get('from')) for l in e if l.tag == 'laneLink']) for e in j.get_element() if e.tag == 'connection']
def find(cs, inc, con, contact):
    # the connections of one connecting road to one road
    return [c for c in cs if c[0] == str(inc) and c[1] == str(con) and c[2] == contact]
def lanes_to(c, lid):
    return tuple([f for t, f in c[3] if t == str(lid)])
"""


def c36_check(ctx, I, label, outer, conn, binds, before="", order=None, jr=None, outs=None):
    """outer: ordinary roads; conn: connecting roads as (Road, pred Road, succ Road)"""
    rs = outer + [c for c, _, _ in conn]
    code = PRE + CONN + "".join(r.build() for r in rs) + before
    code += "j = p.create_junction([%s], 7, [%s])\ncs = conns(j)\nn = len(cs)\nids = tuple([e.get('id') for e in j.get_element()])\nuniq = len(set(ids))\n" % (
        ", ".join(c.var for c, _, _ in (jr or conn)),
        ", ".join(r.var for r in (outs or outer)),
    )
    items = []
    for c, a, b in conn:
        for which, road, contact, sec in (("p", a, "start", 0), ("s", b, "end", -1)):
            k = len(items)
            own = [i for i in ids(*c.secs[sec]) if i]
            idx = sec % len(c.secs)
            code += "f{0} = find(cs, {1}, {2}, '{3}')\n".format(k, road.rid, c.rid, contact)
            code += "g{0} = tuple([lanes_to(q, i) for q in f{0} for i in [{1}]] + [len(q[3]) for q in f{0}])\n".format(k, ", ".join(map(str, own)))
            want = [c.want.get((idx, i), {"p": [], "s": []})[which] for i in own]
            code += "h{0} = ({1}{2},)\n".format(k, "".join("(%s), " % "".join("str(%s), " % x for x in w) for w in want), len(own))
            items.append((k, c, road, contact))
    code += by_network(rs, order or range(len(rs)))
    for k, (_, c, _, _) in enumerate(items):
        code += "x{0}, w{0} = {1}, {2}\n".format(k, c.observed(), c.expected())
    label = "%s: %s; %s" % (label, ", ".join(r.describe() for r in rs), "; ".join(l for c, _, _ in conn for l in c.links))
    run = ctx.run(I, code, binds, label)
    if not ctx.no_raise(run, "C36-accepts", label):
        return
    ctx.eq(I, "C36-connections", label, run["n"], 2 * len(conn), run.pc, "number of connections")
    ctx.eq(I, "C36-connections", label, run["uniq"], 2 * len(conn), run.pc, "number of different connection ids")
    for k, c, road, contact in items:
        ctx.eq(I, "C36-links", "%s: connection of road %s at the %s of connecting road %s, lanes linked to each of its lanes and their number" % (label, road.rid, contact, c.rid), run["g%d" % k], run["h%d" % k], run.pc, "the lane links")
        ctx.eq(I, "C36-agrees", "%s: lanes of connecting road %s" % (label, c.rid), run["x%d" % k], run["w%d" % k], run.pc, "the lane links written on the connecting road")


def c36(ctx):
    contacts = [lambda ctx, c=c: c36_contacts(ctx, *c) for c in itertools.product(("S", "E_"), repeat=2)]
    ctx.parallel([decorated("Road Lane", j) for j in contacts + [c36_many, c36_shapes]] + contacts + [c36_many, c36_ids, c36_shapes, c36_generated])


def c36_contacts(ctx, pc, sc):
    pool = Pool(ctx)
    for po, so in ((None, None), ("k", None), (None, "m"), ("k", "m")):
        for secs in ([(1, 1)], [(2, 1)], [(1, 2), (2, 1)], [(1, 2), (3, 0), (0, 2)]):
            for order in ((0, 1, 2), (2, 1, 0)):
                for before in ("", "pre"):
                    a, b, c = joined(secs, pc, sc, po, so)
                    c36_check(ctx, pool.get(), "contacts" + (", lanes already linked" if before else ""), [a, b], [(c, a, b)], OFF, by_network([a, b, c], (1, 2, 0)) if before else "", order)
    ctx.sample("every pair of contact points, lane offsets given or not (unbounded), up to three sections, before and after the lanes are linked")
    pool.close()


def c36_shapes(ctx):
    pool = Pool(ctx)
    for l, r in itertools.product(ctx.sizes(4), repeat=2):
        for pc, sc in itertools.product(("S", "E_"), repeat=2):
            a, b, c = joined([(l, r)], pc, sc, "k", "m")
            c36_check(ctx, pool.get(), "lanes", [a, b], [(c, a, b)], OFF)
    pool.close()


def c36_ids(ctx):
    pool = Pool(ctx)
    for ra, rb, rc in (("1", "2", "100"), ("'1'", "'2'", "'100'"), ("'1'", "2", "100"), ("1", "'2'", "'100'"), ("'in'", "'out'", "'turn'"), ("'in'", "2", "1"), ("1", "11", "111"), ("100", "'10'", "1"), ("0", "1", "'0 1'")):
        for which in itertools.product((0, 1), repeat=2):
            for pc, sc in (("E_", "S"), ("S", "E_")):
                for before in ("", "pre"):
                    a, b, c = joined([(2, 1)], pc, sc, "k", "m", ids_=(ra, rb, rc))
                    flip_ids(c, ra, rb, which)
                    c36_check(ctx, pool.get(), "ids" + (", lanes already linked" if before else ""), [a, b], [(c, a, b)], OFF, by_network([a, b, c], (1, 2, 0)) if before else "", (2, 0, 1))
    pool.close()


def c36_many(ctx):
    pool = Pool(ctx)
    for ra, rb, rd in (("1", "2", "3"), ("'1'", "'2'", "3"), ("'in'", "'out'", "'up'"), ("100", "101", "7")):
        for pc, sc, dc in itertools.product(("S", "E_"), repeat=3):
            for back in (0, 1):
                a, b, d = (Road(v, i, [(2, 2)]) for v, i in (("a", ra), ("b", rb), ("d", rd)))
                for r, cp in ((a, pc), (b, sc), (d, dc)):
                    (r.succ if cp == "E_" else r.pred)("7", "None", "JN")
                conn = []
                for var, rid, x, xc, y, yc, po, so, secs in (("c1", "200", a, pc, b, sc, "k", None, [(1, 1)]), ("c2", "201", a, pc, d, dc, None, "m", [(2, 1)]), ("c3", "'202'", d, dc, b, sc, None, None, [(1, 1), (1, 2)]), ("c4", "203", b, sc, a, pc, "m", "k", [(0, 1)])):
                    c = Road(var, rid, secs, "7").pred(x.rid, xc, "RD", po).succ(y.rid, yc, "RD", so)
                    ahead(c, xc, po, "p")
                    ahead(c, yc, so, "s")
                    conn.append((c, x, y))
                c36_check(ctx, pool.get(), "junction of three roads", [a, b, d], conn, OFF, jr=list(reversed(conn)) if back else None, outs=[d, b, a] if back else None)
    # roads that lead back to where they come from
    for pc, sc in itertools.product(("S", "E_"), repeat=2):
        for po, so, secs in ((None, None, [(1, 1)]), ("k", "m", [(1, 2), (2, 1)])):
            a, c = turned(secs, pc, sc, po, so)
            c36_check(ctx, pool.get(), "back to the same road", [a], [(c, a, a)], OFF)
            a, b, c = joined([(2, 1)], pc, sc, po, so)
            d = Road("d", "'101'", secs, "7").pred("1", pc).succ("1", pc)
            ahead(d, pc, None, "p")
            ahead(d, pc, None, "s")
            for conn in ([(c, a, b), (d, a, a)], [(d, a, a), (c, a, b)]):
                c36_check(ctx, pool.get(), "one back to the same road, one to another", [a, b], conn, OFF)
    # no connecting roads
    I = pool.get()
    r = ctx.run(I, PRE + CONN + "a = road(1, [(1, 1)])\nn = len(conns(p.create_junction([], 7, [a])))\n", {}, "no connecting roads")
    if ctx.no_raise(r, "C36-accepts", "no connecting roads"):
        ctx.eq(I, "C36-connections", "no connecting roads", r["n"], 0, r.pc, "number of connections")
    pool.close()


def c36_generated(ctx):
    """the connecting roads of the junction generator"""
    pool = Pool(ctx)
    for n, angles in ((2, "[0, np.pi]"), (2, "[0, np.pi / 2]"), (3, "[0, np.pi / 2, np.pi]"), (3, "[0, 2 * np.pi / 3, 4 * np.pi / 3]"), (4, "[0, np.pi / 2, np.pi, 3 * np.pi / 2]")):
        for lanes in (1, 2):
            I = pool.get()
            code = PRE + CONN + "rs = [p.create_straight_road(1 + i, L, n_lanes=%d) for i in range(%d)]\nturns = p.create_junction_roads(rs, %s, rad, 7)\nj = p.create_junction(turns, 7, rs)\ncs = conns(j)\nn = len(cs)\n" % (lanes, n, angles)
            pairs = list(itertools.combinations(range(n), 2))
            for k, (i, m) in enumerate(pairs):
                own = list(range(1, lanes + 1)) + [-x for x in range(1, lanes + 1)]
                for w, (rid, contact, sign) in enumerate(((1 + i, "start", 1 if i == 0 else -1), (1 + m, "end", 1))):
                    code += "f = find(cs, %d, %d, '%s')\n" % (rid, 100 + k, contact)
                    code += "g%d_%d = tuple([lanes_to(q, i) for q in f for i in %s] + [len(q[3]) for q in f])\n" % (k, w, own)
                    code += "h%d_%d = (%s%d,)\n" % (k, w, "".join("('%d',), " % (sign * x) for x in own), len(own))
            label = "generated junction of %d roads at %s with %d lanes" % (n, angles, lanes)
            r = ctx.run(I, code, nums(L="+", rad="+"), label)
            if ctx.no_raise(r, "C36-accepts", label):
                ctx.eq(I, "C36-connections", label, r["n"], 2 * len(pairs), r.pc, "number of connections")
                for k, (i, m) in enumerate(pairs):
                    for w in (0, 1):
                        ctx.eq(I, "C36-generated", "%s: %s of connecting road %d" % (label, ("start", "end")[w], 100 + k), r["g%d_%d" % (k, w)], r["h%d_%d" % (k, w)], r.pc, "the lane links")
    pool.close()
