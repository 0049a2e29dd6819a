"""C09: every enumeration value is written as its OpenDRIVE keyword."""
from .. import terms as T
from ..terms import Undecided, show, Sym
from .serial import ROAD, nums

KEYWORDS = {
    "MarkRule": "no passing|caution|none",
    "LaneType": "none|driving|stop|shoulder|biking|sidewalk|border|restricted|parking|bidirectional|median|special1|special2|special3|roadWorks|tram|rail|entry|exit|offRamp|onRamp|connectingRamp|bus|taxi|HOV|mwyEntry|mwyExit",
    "RoadMarkColor": "standard|blue|green|red|white|yellow|orange",
    "RoadMarkWeight": "standard|bold",
    "RoadMarkType": "none|solid|broken|solid solid|solid broken|broken solid|broken broken|botts dots|grass|curb|custom|edge",
    "RoadType": "unknown|rural|motorway|town|lowSpeed|pedestrian|bicycle|townExpressway|townCollector|townArterial|townPrivate|townLocal|townPlayStreet",
    "LaneChange": "increase|decrease|both|none",
    "ElementType": "road|junction",
    "ContactPoint": "start|end",
    "Direction": "same|opposite",
    "ObjectType": "none|obstacle|pole|tree|vegetation|barrier|building|parkingSpace|patch|railing|trafficIsland|crosswalk|streetLamp|gantry|soundBarrier|roadMark",
    "Dynamic": "yes|no",
}
TABLE = {c: {k.replace(" ", "_"): k for k in v.split("|")} for c, v in KEYWORDS.items()}
TABLE["Orientation"] = {"positive": "+", "negative": "-", "none": "none"}

# where each enumeration reaches the document: (enumeration, code, attribute values)
WRITERS = [
    ("LaneType", "l = p.Lane(v)\np.LaneSection(0, p.Lane()).add_left_lane(l)\ngot = l.get_element().attrib['type']", ["got"]),
    ("RoadMarkType", "e = p.RoadMark(v, length=3, space=1).get_element()\ngot = e.attrib['type']\ngot2 = find(e, 'type').attrib['name']", ["got", "got2"]),
    ("RoadMarkColor", "got = p.RoadMark(p.RoadMarkType.solid, color=v).get_element().attrib['color']", ["got"]),
    ("RoadMarkWeight", "got = p.RoadMark(p.RoadMarkType.solid, marking_weight=v).get_element().attrib['weight']", ["got"]),
    ("MarkRule", "e = p.RoadMark(p.RoadMarkType.solid, length=3, rule=v).get_element()\ngot = find(find(e, 'type'), 'line').attrib['rule']", ["got"]),
    ("LaneChange", "got = p.RoadMark(p.RoadMarkType.solid, laneChange=v).get_element().attrib['laneChange']", ["got"]),
    ("ElementType", "r = p.Road(1, straight(5), p.Lanes())\nr.add_successor(v, 2, p.ContactPoint.start)\ngot = find(find(r.get_element(), 'link'), 'successor').attrib['elementType']", ["got"]),
    ("ContactPoint", "r = p.Road(1, straight(5), p.Lanes())\nr.add_successor(p.ElementType.road, 2, v)\ngot = find(find(r.get_element(), 'link'), 'successor').attrib['contactPoint']\ngot2 = p.Connection(1, 2, v, 0).get_element().attrib['contactPoint']", ["got", "got2"]),
    ("Direction", "r = p.Road(1, straight(5), p.Lanes())\nr.add_neighbor(p.ElementType.road, 2, v)\ngot = find(find(r.get_element(), 'link'), 'neighbor').attrib['direction']", ["got"]),
    ("ObjectType", "got = p.Object(1, 2, v, id='a').get_element().attrib['type']", ["got"]),
    ("Dynamic", "got = p.Object(1, 2, id='a', dynamic=v).get_element().attrib['dynamic']\ngot2 = p.Signal(1, 2, 'se', 'x', id='a', dynamic=v).get_element().attrib['dynamic']", ["got", "got2"]),
    ("Orientation", "got = p.Object(1, 2, id='a', orientation=v).get_element().attrib['orientation']\ngot2 = p.Signal(1, 2, 'se', 'x', id='a', orientation=v).get_element().attrib['orientation']", ["got", "got2"]),
]


def keyword(table, name):
    return table.get(name, name.replace("_", " "))


def c09(ctx):
    I = ctx.interp()
    pkg = I.get(I.mods[I.package]).d
    en = {}
    for name in set(TABLE) | {"RoadSide"}:
        ref = pkg.get(name)
        if ref is None:
            ctx.fail("C09-exported", name, "the package does not export %s" % name)
            continue
        info = I.get(ref).meta
        if not info.members:
            ctx.fail("C09-enumeration", name, "%s is not an enumeration" % name)
            continue
        ctx.ok("C09-enumeration")
        en[name] = ref
    for c, table in TABLE.items():
        if c not in en:
            continue
        d = I.get(en[c]).d
        members = {n: v for n, v in d.items() if v in I.get(en[c]).meta.members}
        for m in table:
            if m in members:
                ctx.ok("C09-member")
            else:
                ctx.fail("C09-member", "%s.%s" % (c, m), "keyword %r cannot be written: there is no member %s" % (table[m], m))
        # distinct members must be distinct objects (equal values make one an alias of the other)
        for a in members:
            for b in members:
                if a < b and members[a] is members[b]:
                    ctx.fail("C09-distinct", "%s.%s" % (c, b), "is the same value as %s.%s" % (c, a))
        words = {}
        if c != "Orientation":
            r = ctx.run(I, "\n".join("k_%s = p.enum2str(p.%s.%s)" % (m, c, m) for m in members), {}, "keywords of %s" % c)
            if not ctx.no_raise(r, "C09-keyword", c):
                continue
            for m in members:
                ctx.eq(I, "C09-keyword", "%s.%s" % (c, m), r["k_" + m], keyword(table, m), r.pc, "the keyword of %s.%s" % (c, m), strict=True)
                words.setdefault(str(r["k_" + m]), []).append(m)
            for w, ms in words.items():
                if len(ms) > 1:
                    ctx.fail("C09-distinct", c, "%s share the keyword %s" % (", ".join(ms), w))
                else:
                    ctx.ok("C09-distinct")
        ctx.sample("%s: %s" % (c, ", ".join("%s -> %s" % (m, keyword(table, m)) for m in list(members)[:6])))
    ctx.done(I)
    for c, code, outs in WRITERS:
        if c not in en:
            continue
        I = ctx.interp()
        v = ctx.enum(I, c, "v")
        names = {x: n for n, x in reversed(list(I.get(ctx.cls(I, c)).d.items())) if isinstance(x, T.Ref)}
        want = T.lift(lambda x: keyword(TABLE[c], names[x]), v)
        r = ctx.run(I, ROAD + code, {"v": v}, "%s as written" % c)
        if ctx.no_raise(r, "C09-written", c):
            for o in outs:
                ctx.eq(I, "C09-written", c + " " + o, r[o], want, r.pc, "the attribute written for a %s" % c, strict=True)
        ctx.done(I)
