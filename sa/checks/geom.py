"""C22, C23, C25, C26, C34: poses and chains of geometries, against closed forms and with opaque geometries."""
import itertools

from .. import terms as T
from .net import Pool
from .serial import GEOMS, UF, nums, geom_binds, KINDS

# closed forms of the end pose and length of each kind; `rot` moves a local displacement to the start pose
LAWS = """
import numpy as np
import scipy.special
import scipy.integrate
def rot(u, v, x, y, h):
    return x + u * np.cos(h) - v * np.sin(h), y + u * np.sin(h) + v * np.cos(h)
def line(n, x, y, h):
    a, b = rot(n, 0, x, y, h)
    return a, b, h, n
def arc(k, n, x, y, h):
    a, b = rot(np.sin(k * n) / k, (1 - np.cos(k * n)) / k, x, y, h)
    return a, b, h + k * n, n
def clothoid(k0, k1, n, x, y, h):
    if k0 == k1:
        if k0 == 0:
            return line(n, x, y, h)
        return arc(k0, n, x, y, h)
    g = (k1 - k0) / n
    # integral of cos and sin of h + k0 s + g s^2 / 2 over 0..n by completing the square
    ag = np.abs(g)
    q = np.sqrt(np.pi * ag)
    s1, c1 = scipy.special.fresnel(k1 / q)
    s0, c0 = scipy.special.fresnel(k0 / q)
    sg = 1 if g > 0 else -1
    u = np.sqrt(np.pi / ag) * sg * (c1 - c0)
    v = np.sqrt(np.pi / ag) * (s1 - s0)
    a, b = rot(u, v, x, y, h - k0 * k0 / (2 * g))
    return a, b, h + n * (k0 + k1) / 2, n
def cubic(au, bu, cu, du, av, bv, cv, dv, e, n, x, y, h):
    a, b = rot(au + e * (bu + e * (cu + e * du)), av + e * (bv + e * (cv + e * dv)), x, y, h)
    return a, b, h + np.arctan2(bv + 2 * cv * e + 3 * dv * e * e, bu + 2 * cu * e + 3 * du * e * e), n
def cubic_length(bu, cu, du, bv, cv, dv):
    return scipy.integrate.quad(lambda t: np.sqrt((bu + 2 * cu * t + 3 * du * t * t) ** 2 + (bv + 2 * cv * t + 3 * dv * t * t) ** 2), 0, 1)[0]
def turn(h):
    return np.cos(h), np.sin(h)
def view(d):
    # headings count modulo a full turn
    return d[0], d[1], np.cos(d[2]), np.sin(d[2]), d[3]
"""

# every construction, split by the signs of the parameters (the cases together cover the domain):
# label -> (construction, closed form of its end pose); c, L, a, s, d, cd > 0, the other symbols are unrestricted
def cases():
    out = {"line": ("p.Line(L)", "line(L, {p})"), "line of zero length": ("p.Line(0)", "line(0, {p})")}
    pm = (("", "+"), ("-", "-"))
    for k, n in pm:
        out["arc by length, curvature %s" % n] = ("p.Arc(%sc, length=L)" % k, "arc(%sc, L, {p})" % k)
        out["arc of zero length, curvature %s" % n] = ("p.Arc(%sc, length=0)" % k, "line(0, {p})")
        out["arc of zero angle, curvature %s" % n] = ("p.Arc(%sc, angle=0)" % k, "line(0, {p})")
        for q, m in pm:
            out["arc by angle, curvature %s, angle %s" % (n, m)] = ("p.Arc(%sc, angle=%sa)" % (k, q), "arc(%sc, a / c, {p})" % k)
        out["spiral by length, curvature constant %s" % n] = ("p.Spiral(%sc, %sc, length=L)" % (k, k), "arc(%sc, L, {p})" % k)
    out["spiral by length, no curvature"] = ("p.Spiral(0, 0, length=L)", "line(L, {p})")
    for g, n in (("+", "growing"), ("-", "falling")):
        out["spiral by length, curvature %s" % n] = ("p.Spiral(c0, c0 %s d, length=L)" % g, "clothoid(c0, c0 %s d, L, {p})" % g)
        out["spiral by rate, curvature %s" % n] = ("p.Spiral(c0, c0 %s d, cdot=%scd)" % (g, g), "clothoid(c0, c0 %s d, d / cd, {p})" % g)
        h = "-" if g == "+" else "+"
        for k, m in pm:
            for q, o in pm:
                lab = "spiral by angle %s, curvature %s, mean curvature %s" % (o, n, m)
                u = "%s(s %s d) / 2" % (k, h), "%s(s %s d) / 2" % (k, g)
                out[lab] = ("p.Spiral(%s, %s, angle=%sa)" % (u[0], u[1], q), "clothoid(%s, %s, 2 * a / s, {p})" % u)
                if g == "+":
                    out["spiral by angle %s, curvature constant %s" % (o, m)] = ("p.Spiral(%ss, %ss, angle=%sa)" % (k, k, q), "arc(%ss, a / s, {p})" % k)
    out["cubic, normalized"] = ("p.ParamPoly3(au, bu, cu, du, av, bv, cv, dv)", "cubic(au, bu, cu, du, av, bv, cv, dv, 1, cubic_length(bu, cu, du, bv, cv, dv), {p})")
    out["cubic, by length"] = ("p.ParamPoly3(au, bu, cu, du, av, bv, cv, dv, prange='arcLength', length=L)", "cubic(au, bu, cu, du, av, bv, cv, dv, L, L, {p})")
    return out


def binds():
    b = nums("x0", "y0", "h0", "c0", "au", "bu", "cu", "du", "av", "bv", "cv", "dv", L="+", c="+", a="+", s="+", d="+", cd="+", u0="+", u1="+")
    return b


PARTS = ("x", "y", "cos(heading)", "sin(heading)", "length")


def c22(ctx):
    for kind, (make, law) in cases().items():
        I = ctx.interp()
        law = law.format(p="x0, y0, h0")
        r = ctx.run(I, LAWS + "got = view(%s.get_end_data(x0, y0, h0))\nwant = view(%s)\n" % (make, law), binds(), "end pose of " + kind)
        ctx.sample("%s.get_end_data(x, y, h) = %s for every start pose and parameter" % (make, law))
        if ctx.no_raise(r, "C22-answers", kind):
            for i, what in enumerate(PARTS):
                g, w = T.lift(lambda t: t.items[i], r["got"]), T.lift(lambda t: t.items[i], r["want"])
                ctx.eq(I, "C22-end-pose", "%s %s" % (kind, what), g, w, r.pc, what)
        ctx.done(I)
    # specifications of one curve agree
    pairs = {
        "arc by length and by angle": ("p.Arc(c, length=a / c)", "p.Arc(c, angle=a)"),
        "spiral by length and by angle": ("p.Spiral(u0, u1, length=L)", "p.Spiral(u0, u1, angle=L * (u0 + u1) / 2)"),
        "spiral by length and by angle, turning right": ("p.Spiral(-u0, -u1, length=L)", "p.Spiral(-u0, -u1, angle=-L * (u0 + u1) / 2)"),
        "spiral by length and by rate": ("p.Spiral(c0, c0 + d, length=d / cd)", "p.Spiral(c0, c0 + d, cdot=cd)"),
        "spiral by length and by negative rate": ("p.Spiral(c0, c0 - d, length=d / cd)", "p.Spiral(c0, c0 - d, cdot=-cd)"),
        "spiral of constant curvature and arc": ("p.Spiral(c, c, length=L)", "p.Arc(c, length=L)"),
        "spiral of no curvature and line": ("p.Spiral(0, 0, length=L)", "p.Line(L)"),
        "cubic without curvature and line": ("p.ParamPoly3(0, 1, 0, 0, 0, 0, 0, 0, prange='arcLength', length=L)", "p.Line(L)"),
    }
    for label, (m1, m2) in pairs.items():
        I = ctx.interp()
        r = ctx.run(I, LAWS + "got = view(%s.get_end_data(x0, y0, h0))\nwant = view(%s.get_end_data(x0, y0, h0))\n" % (m1, m2), binds(), label)
        if ctx.no_raise(r, "C22-answers", label):
            ctx.eq(I, "C22-agree", label, r["got"], r["want"], r.pc, "the end pose")
        ctx.done(I)


def c23(ctx):
    for kind, (make, _) in cases().items():
        I = ctx.interp()
        r = ctx.run(
            I,
            LAWS
            + """
g = %(m)s
x1, y1, h1, n1 = g.get_end_data(x0, y0, h0)
back = g.get_start_data(x1, y1, h1 + np.pi)
got, want = view(back), view((x0, y0, h0 + np.pi, n1))
# the other way round
x2, y2, h2, n2 = %(m)s.get_start_data(x0, y0, h0 + np.pi)
forth = %(m)s.get_end_data(x2, y2, h2 - np.pi)
got2, want2 = view(forth), view((x0, y0, h0, n2))
"""
            % dict(m=make),
            binds(),
            "start pose of " + kind,
        )
        ctx.sample("%s: start pose of the end pose of any pose is that pose, and the end pose of its start pose too" % make)
        if ctx.no_raise(r, "C23-answers", kind):
            for i, what in enumerate(PARTS):
                for g, w, how in (("got", "want", "back from the end"), ("got2", "want2", "forth from the start")):
                    ctx.eq(I, "C23-inverse", "%s %s %s" % (kind, how, what), T.lift(lambda t: t.items[i], r[g]), T.lift(lambda t: t.items[i], r[w]), r.pc, what)
        ctx.done(I)


# --------------------------------------------------------------------------------------------------
CHAIN = """
def record(s, x, y, h, k):
    return E('geometry', {'s': str(s), 'x': str(x), 'y': str(y), 'hdg': str(h), 'length': str(GL(k))}, [E('opaque', {'k': str(k)})])
def chain(x, y, h, ks, heads):
    # expected records, end pose and total length of a chain that starts at x, y, h
    s, out = 0, []
    for i, k in enumerate(ks):
        if heads is not None:
            h = heads[i]
        out.append(record(s, x, y, h, k))
        x, y, h, s = EX(k, x, y, h), EY(k, x, y, h), EH(k, x, y, h), s + GL(k)
    return out, (x, y, h), s
def chain_back(x, y, h, ks):
    # expected records, start pose and total length of a chain that ends at x, y heading h - pi
    poses = []
    for k in reversed(ks):
        x, y, h = SX(k, x, y, h), SY(k, x, y, h), SH(k, x, y, h)
        poses.append((x, y, h + numpy.pi, k))
    poses.reverse()
    s, out = 0, []
    for a, b, c, k in poses:
        out.append(record(s, a, b, c, k))
        s = s + GL(k)
    return out, (x, y, h + numpy.pi), s
def numbers(pv):
    out = []
    for g in pv.get_element():
        h = float(g.get('hdg'))
        out.append((float(g.get('s')), float(g.get('x')), float(g.get('y')), np.cos(h), np.sin(h), float(g.get('length'))))
    return out
"""


def zero_lengths(ctx, rule, back):
    """some geometries of a chain have no length"""
    sets = [(n, z) for n in (1, 2, 3, 4) for k in range(1, n + 1) for z in itertools.combinations(range(n), k)] + [(6, (i,)) for i in range(6)] + [(6, (1, 2, 4)), (6, (0, 3, 5))]
    pool = Pool(ctx, 8)
    for n, zeros in sets:
        I = pool.get()
        code = GEOMS + CHAIN + "GL0 = GL\ndef GL(k):\n    return 0 if k in %s else GL0(k)\npv = p.PlanView()\npv.set_start_point(x0, y0, h0)\n" % list(zeros)
        for i in range(n):
            code += "pv.add_geometry(Opaque(%d))\n" % i
        if back:
            code += "pv.adjust_geometries(True)\nws, wp, wl = chain_back(x0, y0, h0, %s)\npose = tuple(pv.get_start_point())\n" % list(range(n))
        else:
            code += "pv.adjust_geometries()\nws, wp, wl = chain(x0, y0, h0, %s, None)\npose = tuple(pv.get_end_point())\n" % list(range(n))
        code += "got, want, length = pv.get_element(), E('planView', None, ws), pv.get_total_length()\n"
        label = "%d geometries of which %s have no length%s" % (n, [i + 1 for i in zeros], ", from the end" if back else "")
        r = ctx.run(I, code, dict(nums("x0", "y0", "h0"), **UF), label)
        if ctx.no_raise(r, rule + "-positions", label):
            ctx.xml(I, rule + "-chain", label, r["got"], r["want"], r.pc)
            ctx.eq(I, rule + "-start" if back else rule + "-end", label, r["pose"], r["wp"], r.pc, "pose at the other end")
            ctx.eq(I, rule + "-length", label, r["length"], r["wl"], r.pc, "total length")
    pool.close()


def c25(ctx):
    zero_lengths(ctx, "C25", False)
    starts = {
        "explicit start": ("p.PlanView(x0, y0, h0)", "x0, y0, h0"),
        "start point set later": ("p.PlanView()", "x0, y0, h0"),
        "start at the origin given": ("p.PlanView(0, 0, 0)", "0, 0, 0"),
        "start with zero heading": ("p.PlanView(x0, y0, 0)", "x0, y0, 0"),
        "start with zero x": ("p.PlanView(0, y0, h0)", "0, y0, h0"),
        "no start": ("p.PlanView()", "0, 0, 0"),
    }
    for n in ctx.sizes(6):
        for name, (make, at) in starts.items():
            for heads in (False, True):
                if heads and n == 0:
                    continue
                I = ctx.interp()
                b = dict(nums("x0", "y0", "h0", *["hd%d" % i for i in range(n)]), **UF)
                code = GEOMS + CHAIN + "pv = %s\n" % make
                for i in range(n):
                    code += "pv.add_geometry(Opaque(%d)%s)\n" % (i, ", hd%d" % i if heads else "")
                if "later" in name:
                    code += "pv.set_start_point(x0, y0, h0)\n"
                code += "pv.adjust_geometries()\ngot = pv.get_element()\n"
                code += "ws, we, wl = chain(%s, %s, %s)\n" % (at, [i for i in range(n)], "[%s]" % ", ".join("hd%d" % i for i in range(n)) if heads else "None")
                code += "want = E('planView', None, ws)\nend, length = tuple(pv.get_end_point()), pv.get_total_length()\nrend = tuple(p.Road(1, pv, p.Lanes()).get_end_point())\nstart, at = tuple(pv.get_start_point())[:2], (%s)[:2]\n" % at
                if not heads:
                    code += "start, at = tuple(pv.get_start_point()), (%s)\n" % at
                label = "%d geometries, %s%s" % (n, name, ", headings given" if heads else "")
                r = ctx.run(I, code, b, label)
                if ctx.no_raise(r, "C25-positions", label):
                    ctx.xml(I, "C25-chain", label, r["got"], r["want"], r.pc)
                    ctx.eq(I, "C25-end", label, r["end"], r["we"], r.pc, "end pose")
                    ctx.eq(I, "C25-end", label + " of the road", r["rend"], r["we"], r.pc, "end pose reported by the road")
                    ctx.eq(I, "C25-length", label, r["length"], r["wl"], r.pc, "total length")
                    ctx.eq(I, "C25-start", label, r["start"], r["at"], r.pc, "start pose")
                ctx.done(I)
        ctx.sample("plan views of %d opaque geometries from every kind of start" % n)
    # one geometry object several times in a chain, and in several plan views
    for ks in ((0, 0), (0, 1, 0), (0, 0, 1), (1, 0, 0), (0, 0, 0), (0, 1, 0, 1)):
        for heads in (False, True):
            I = ctx.interp()
            code = GEOMS + CHAIN + "gs = [Opaque(0), Opaque(1)]\npv, qv = p.PlanView(x0, y0, h0), p.PlanView()\n"
            for i, k in enumerate(ks):
                code += "pv.add_geometry(gs[%d]%s)\nqv.add_geometry(gs[%d])\n" % (k, ", hd%d" % i if heads else "", k)
            code += "qv.adjust_geometries()\npv.adjust_geometries()\ngot, got2 = pv.get_element(), qv.get_element()\n"
            code += "ws, we, wl = chain(x0, y0, h0, %s, %s)\nw2 = chain(0, 0, 0, %s, None)[0]\n" % (list(ks), "[%s]" % ", ".join("hd%d" % i for i in range(len(ks))) if heads else "None", list(ks))
            code += "want, want2 = E('planView', None, ws), E('planView', None, w2)\nend, length = tuple(pv.get_end_point()), pv.get_total_length()\n"
            label = "geometries %s, shared objects%s" % (list(ks), ", headings given" if heads else "")
            r = ctx.run(I, code, dict(nums("x0", "y0", "h0", *["hd%d" % i for i in range(len(ks))]), **UF), label)
            if ctx.no_raise(r, "C25-positions", label):
                ctx.xml(I, "C25-shared", label, r["got"], r["want"], r.pc)
                ctx.xml(I, "C25-shared", label + " second plan view", r["got2"], r["want2"], r.pc)
                ctx.eq(I, "C25-end", label, r["end"], r["we"], r.pc, "end pose")
                ctx.eq(I, "C25-length", label, r["length"], r["wl"], r.pc, "total length")
            ctx.done(I)
    # every geometry kind in a chain
    for kind, (make, law) in cases().items():
        I = ctx.interp()
        r = ctx.run(
            I,
            LAWS
            + CHAIN
            + "pv = p.PlanView(x0, y0, h0)\npv.add_geometry(%s)\npv.add_geometry(p.Line(L))\npv.adjust_geometries()\ngot = numbers(pv)\na, b, c, n = %s\n" % (make, law.format(p="x0, y0, h0"))
            + "want = [(0, x0, y0, np.cos(h0), np.sin(h0), n), (n, a, b, np.cos(c), np.sin(c), L)]\nlength = pv.get_total_length()\nend, we = view(tuple(pv.get_end_point()) + (0,)), view(line(L, a, b, c)[:3] + (0,))\nwl = n + L\ngot, want = tuple(got), tuple(want)\n",
            binds(),
            "chain with " + kind,
        )
        if ctx.no_raise(r, "C25-positions", kind):
            ctx.eq(I, "C25-kinds", kind, r["got"], r["want"], r.pc, "the chain")
            ctx.eq(I, "C25-kinds", kind + " end", r["end"], r["we"], r.pc, "end pose")
            ctx.eq(I, "C25-kinds", kind + " length", r["length"], r["wl"], r.pc, "total length")
        ctx.done(I)


def c26(ctx):
    zero_lengths(ctx, "C26", True)
    for n in ctx.sizes(6):
        I = ctx.interp()
        code = GEOMS + CHAIN + "pv = p.PlanView()\n"
        for i in range(n):
            code += "pv.add_geometry(Opaque(%d))\n" % i
        code += "pv.set_start_point(x0, y0, h0)\npv.adjust_geometries(True)\ngot = pv.get_element()\nws, wst, wl = chain_back(x0, y0, h0, %s)\n" % list(range(n))
        code += "want = E('planView', None, ws)\nstart, length, end = tuple(pv.get_start_point()), pv.get_total_length(), tuple(pv.get_end_point())\nrend = tuple(p.Road(1, pv, p.Lanes()).get_end_point())\nwe = (x0, y0, h0 + numpy.pi)\n"
        label = "%d geometries from the end" % n
        r = ctx.run(I, code, dict(nums("x0", "y0", "h0"), **UF), label)
        if ctx.no_raise(r, "C26-positions", label):
            ctx.xml(I, "C26-chain", label, r["got"], r["want"], r.pc)
            ctx.eq(I, "C26-start", label, r["start"], r["wst"], r.pc, "start pose")
            ctx.eq(I, "C26-end", label, r["end"], r["we"], r.pc, "end pose")
            ctx.eq(I, "C26-end", label + " of the road", r["rend"], r["we"], r.pc, "end pose reported by the road")
            ctx.eq(I, "C26-length", label, r["length"], r["wl"], r.pc, "total length")
        ctx.done(I)
        ctx.sample("plan view of %d opaque geometries positioned from its end pose" % n)
    for ks in ((0, 0), (0, 1, 0), (0, 0, 1), (1, 0, 0), (0, 0, 0), (0, 1, 0, 1)):
        I = ctx.interp()
        code = GEOMS + CHAIN + "gs = [Opaque(0), Opaque(1)]\npv, qv = p.PlanView(), p.PlanView()\n"
        for k in ks:
            code += "pv.add_geometry(gs[%d])\nqv.add_geometry(gs[%d])\n" % (k, k)
        code += "qv.adjust_geometries()\npv.set_start_point(x0, y0, h0)\npv.adjust_geometries(True)\ngot, got2 = pv.get_element(), qv.get_element()\nws, wst, wl = chain_back(x0, y0, h0, %s)\nw2 = chain(0, 0, 0, %s, None)[0]\n" % (list(ks), list(ks))
        code += "want, want2 = E('planView', None, ws), E('planView', None, w2)\nstart, length = tuple(pv.get_start_point()), pv.get_total_length()\n"
        label = "geometries %s from the end, shared objects" % list(ks)
        r = ctx.run(I, code, dict(nums("x0", "y0", "h0"), **UF), label)
        if ctx.no_raise(r, "C26-positions", label):
            ctx.xml(I, "C26-shared", label, r["got"], r["want"], r.pc)
            ctx.xml(I, "C26-shared", label + " second plan view", r["got2"], r["want2"], r.pc)
            ctx.eq(I, "C26-start", label, r["start"], r["wst"], r.pc, "start pose")
            ctx.eq(I, "C26-length", label, r["length"], r["wl"], r.pc, "total length")
        ctx.done(I)
    # every kind: positioned from the end pose of the forward chain, the same chain results
    for kind, (make, law) in cases().items():
        I = ctx.interp()
        r = ctx.run(
            I,
            LAWS
            + CHAIN
            + "def pv(start):\n    v = p.PlanView()\n    v.add_geometry(p.Line(L))\n    v.add_geometry(%s)\n    v.add_geometry(p.Line(n2))\n    v.set_start_point(*start)\n    return v\n" % make
            + """
f = pv((x0, y0, h0))
f.adjust_geometries()
x, y, h = f.get_end_point()
b = pv((x, y, h + np.pi))
b.adjust_geometries(True)
got, want = tuple(numbers(b)), tuple(numbers(f))
st, en = view(tuple(b.get_start_point()) + (b.get_total_length(),)), view(tuple(b.get_end_point()) + (0,))
wst, wen = view((x0, y0, h0, f.get_total_length())), view((x, y, h, 0))
""",
            dict(binds(), **nums(n2="+")),
            "chain with %s from both ends" % kind,
        )
        if ctx.no_raise(r, "C26-positions", kind):
            ctx.eq(I, "C26-kinds", kind, r["got"], r["want"], r.pc, "the chain")
            ctx.eq(I, "C26-kinds", kind + " start", r["st"], r["wst"], r.pc, "start pose")
            ctx.eq(I, "C26-kinds", kind + " end", r["en"], r["wen"], r.pc, "end pose")
        ctx.done(I)


# --------------------------------------------------------------------------------------------------
def c34(ctx):
    """spiral-arc-spiral roads: shape parameters and turning of the pieces"""
    # arc curvature k > 0; turning left (cloth angle > 0) or right; start curvature of the side turned to, or the default
    forms = [("left", "", "", ""), ("right", "-", "-", ""), ("left", "", "-", ""), ("right", "-", "", "")]
    forms += [(a, b, c, d) for a, b, c, _ in forms[:2] for d in ("no arc", "a second road", "lanes and ids given")]
    # curvature and angles negative: a right turn as given
    forms += [("right, everything negative", "-", "-", d) for d in ("", "no arc", "a second road", "lanes and ids given")]
    for side, sg, ag, more in forms:
        neg = "everything" in side
        for start in ("given", "default", "given to the other side", "zero"):
            I = ctx.interp()
            away = start == "given to the other side"
            cs = "" if start == "default" else ", cloth_start=0" if start == "zero" else ", cloth_start=%scs" % ("-" if neg != away else "")
            r = ctx.run(
                I,
                LAWS
                + ("aa = 0\n" if more == "no arc" else "p.create_cloth_arc_cloth(ks, ka, ka, 5, cloth_start=kc)\np.create_cloth_arc_cloth(-ks, -ka, -ka, 5)\n" if more == "a second road" else "")
                + ("k = cs + k0\n" if away else "k = k0\n")
                + """
road = p.create_cloth_arc_cloth(%(n)sk, %(g)saa, %(s)sca, 7%(cs)s)
road.planview.set_start_point(x0, y0, h0)
road.planview.adjust_geometries()
g = list(road.planview.get_element())
shapes = tuple([x[0].tag for x in g])
def num(e, k):
    return float(e[0].get(k))
first = num(g[0], 'curvStart')
small = -1e-6 < first < 1e-6
curv = (num(g[0], 'curvEnd'), num(g[1], 'curvature'), num(g[2], 'curvStart'), num(g[2], 'curvEnd'))
h = [float(x.get('hdg')) for x in g] + [road.planview.get_end_point()[2]]
turns = (h[1] - h[0], h[2] - h[1], h[3] - h[2])
wcurv = (%(s)sk, %(s)sk, %(s)sk, first)
wturns = (%(s)sca, %(s)saa, %(s)sca)
st, en, ll = tuple(road.planview.get_start_point()), tuple(road.planview.get_end_point()), road.planview.get_total_length()
want = %(s)s%(w)s
"""
                % dict(n="-" if neg else "", s=sg, g=ag, cs=cs + (", junction=5, n_lanes=2, lane_offset=4" if more == "lanes and ids given" else ""), w="cs" if start == "given" else "(-cs)" if away else "0" if start == "zero" else "first" if not sg else "(-first)"),
                dict(nums("x0", "y0", "h0", k0="+", aa="+", ca="+", cs="+", ks="+", ka="+", kc="+")),
                "spiral-arc-spiral turning %s, start curvature %s" % (side, start),
            )
            label = "%s/%s%s" % (side, start, "" if sg == ag else "/arc angle of the other sign") + (more and "/" + more)
            if ctx.no_raise(r, "C34-accepts", label):
                ctx.eq(I, "C34-shapes", label, r["shapes"], T.Tup(("spiral", "arc", "spiral")), r.pc, "the geometries")
                if start != "default":
                    ctx.eq(I, "C34-start", label, r["first"], r["want"], r.pc, "the start curvature")
                else:
                    ctx.eq(I, "C34-start", label, r["small"], True, r.pc, "the road entering practically straight by default")
                ctx.eq(I, "C34-curvature", label, r["curv"], r["wcurv"], r.pc, "the curvatures along the road")
                ctx.eq(I, "C34-turns", label, r["turns"], r["wturns"], r.pc, "the turning of the pieces")
            ctx.done(I)
            ctx.sample("create_cloth_arc_cloth(k > 0, %saa, %sca, id%s)" % (ag, sg, cs))
