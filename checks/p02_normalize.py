"""P02: PathParser.normalize() keeps the geometry, and uses only M, L, C and Z."""
import math

import vf
from pathgen import random_path, scaled, spell
from pathmodel import curves, Cubic, add, rot
from svgpy.path import PathParser, SVGPathSegment


def build(segs):
    return [SVGPathSegment(*s) for s in segs]


def near(a, b, tol):
    return abs(a[0] - b[0]) <= tol and abs(a[1] - b[1]) <= tol


def scale_of(segs, unit=1):
    return unit + max([abs(v) for s in segs for v in s[1:]] + [0])


def arc_problem(arc, pieces):
    """None when the pieces trace the arc, else what is wrong.  Each piece must lie on the ellipse, run in the
    sweep's direction, and together they must cover the sweep exactly once."""
    R = max(arc.rx, arc.ry)
    phi = math.radians(arc.phi)
    c, s = math.cos(phi), math.sin(phi)
    prev = None
    total = 0.0
    for pc in pieces:
        for k in range(0, 17):
            x, y = pc.at(k / 16)
            x, y = x - arc.c[0], y - arc.c[1]
            u, v = (c * x + s * y) / arc.rx, (-s * x + c * y) / arc.ry
            r = math.hypot(u, v)
            if not abs(r - 1) <= 3e-4:
                return 'off the ellipse by %r' % (r - 1)
            a = math.atan2(v, u)
            if prev is not None:
                d = (a - prev + math.pi) % (2 * math.pi) - math.pi
                if d * arc.dt < -1e-9:
                    return 'turns back by %r' % d
                total += d
            else:
                d = (a - arc.t1 + math.pi) % (2 * math.pi) - math.pi
                if abs(d) > 1e-5 * (1 + R / min(arc.rx, arc.ry)):
                    return 'starts at %r, not %r' % (a, arc.t1)
            prev = a
    if not abs(total - arc.dt) <= 1e-4:
        return 'sweeps %r, not %r' % (total, arc.dt)
    if not near(pieces[-1].p1, arc.p1, 1e-6 * (1 + abs(arc.p1[0]) + abs(arc.p1[1]))):
        return 'ends at %r, not %r' % (pieces[-1].p1, arc.p1)


def polar_pieces(arc, p0):
    """What the known finding computes: the polar angles of the end points taken for eccentric angles."""
    def polar(p):
        x, y = rot((p[0] - arc.c[0], p[1] - arc.c[1]), -arc.phi)
        return math.atan2(y, x)
    a1, a2 = polar(p0), polar(arc.p1)
    d = a2 - a1
    if arc.dt > 0:
        while d <= 0:
            d += 2 * math.pi
    else:
        while d >= 0:
            d -= 2 * math.pi
    out = []
    for n in sorted({max(1, math.ceil(abs(d) / (math.pi / 2) + e)) for e in (-1e-5, 0, 1e-5)}):
        inc = d / n
        k = 4 / 3 * math.tan(inc / 4)

        def E(x, y):
            return add(arc.c, rot((arc.rx * x, arc.ry * y), arc.phi))
        cand = []
        cp = p0
        for i in range(n):
            t0, t1 = a1 + i * inc, a1 + (i + 1) * inc
            q1 = E(math.cos(t0) - k * math.sin(t0), math.sin(t0) + k * math.cos(t0))
            q2 = E(math.cos(t1) + k * math.sin(t1), math.sin(t1) - k * math.cos(t1))
            q3 = arc.p1 if i == n - 1 else E(math.cos(t1), math.sin(t1))
            cand.append(Cubic(cp, q1, q2, q3))
            cp = q3
        out.append(cand)
    return out


def check_arc(m, arc, pieces, p0, ctx):
    m.saw('arc')
    span = abs(arc.dt)
    if span > 2 * math.pi - 1e-6 or span < 1e-6:
        return          # numerically a full turn or nothing
    problem = arc_problem(arc, pieces)
    m.state('arc', len(pieces), arc.dt > 0, span > math.pi, arc.lam > 1, arc.phi != 0, arc.rx == arc.ry, not problem)
    if problem is None:
        m.saw('arc-on-ellipse')
        return
    detail = {'problem': problem, 'pieces': [p.p for p in pieces], 'ctx': ctx}
    if not math.isclose(arc.rx, arc.ry):
        tol = 1e-4 * (1 + abs(arc.c[0]) + abs(arc.c[1]) + arc.rx + arc.ry)
        for cand in polar_pieces(arc, p0):
            if len(cand) == len(pieces) and all(near(a, b, tol) for x, y in zip(cand, pieces)
                                                for a, b in zip(x.p, y.p)):
                m.finding('arc-polar-angle', detail)
                return
    m.fail('arc', detail)


def verify(m, segs, norm, ctx, unit=1):
    tol = 1e-8 * scale_of(segs, unit)
    pos = 0
    cp = (0.0, 0.0)
    start = (0.0, 0.0)
    for i, want in curves(segs):
        ctx2 = (ctx, i)
        if want is None:
            m.saw('empty-arc')
            continue
        if pos >= len(norm):
            m.fail('count', {'missing from': i, 'ctx': ctx})
        s = norm[pos]
        if isinstance(want, tuple):
            if want[0] == 'M':
                m.eq('moveto', s.type, 'M', ctx2)
                m.check('moveto', near(s.values, want[1], tol), lambda: (s.values, want[1], ctx2))
                cp = start = want[1]
            else:
                m.eq('closepath', s.type, 'Z', ctx2)
                m.check('closepath', near(want[1].p1, start, tol), ctx2)
                cp = start
            pos += 1
        elif want.kind == 'L':
            m.check('line', s.type in ('L', 'M') and (s.type == 'L' or segs[i][0] in 'Mm'), lambda: (s.type, ctx2))
            m.check('line', near(s.values, want.p1, tol), lambda: (s.values, want.p1, ctx2))
            cp = want.p1
            pos += 1
        elif want.kind == 'C':
            m.eq('curve', s.type, 'C', ctx2)
            for k in range(3):
                m.check('curve', near(s.values[2 * k:2 * k + 2], want.p[k + 1], tol),
                        lambda: (s.values, want.p, ctx2))
            cp = want.p1
            pos += 1
        else:
            pieces = []
            q = cp
            # the arc's pieces: curves until one ends at the arc's end
            while pos < len(norm) and norm[pos].type == 'C':
                v = norm[pos].values
                pieces.append(Cubic(q, tuple(v[0:2]), tuple(v[2:4]), tuple(v[4:6])))
                q = tuple(v[4:6])
                pos += 1
                if near(q, want.p1, tol):
                    break
            m.check('arc', len(pieces) > 0, ctx2)
            check_arc(m, want, pieces, cp, ctx2)
            cp = want.p1
    m.eq('count', len(norm), pos, ctx)
    m.check('types', all(s.type in 'MLCZ' and s.isvalid() for s in norm), ctx)


def case(m, rng, i):
    k = rng.random()
    types = 'LHVCSQTAZM' if k < 0.5 else 'LCSQTZ' if k < 0.7 else 'A' if k < 0.85 else 'LHVAZM'
    segs = random_path(rng, types=types, bearing=0.12 if rng.random() < 0.3 else 0)
    unit = 1
    if rng.random() < 0.12:
        segs, unit = scaled(rng, segs)
        m.saw('scaled')
    text = spell(rng, segs)
    data = PathParser.parse(text)
    if rng.random() < 0.1:
        # any flag but 0 counts as 1
        f = rng.choice([2, -1, True])
        data = build([s[:4] + (s[4] and f, s[5] and f) + s[6:] if s[0] in 'Aa' else s for s in segs])
    before = [(s.type, s.values) for s in data]
    m.event(text)
    norm = PathParser.normalize(data)
    verify(m, segs, norm, text, min(unit, 1))
    m.eq('input-unchanged', [(s.type, s.values) for s in data], before, text)
    # normalizing again changes nothing
    again = PathParser.normalize(norm)
    m.check('idempotent', again == norm, text)
    # and the parts are not shared with the input
    m.check('no-aliasing', not any(a is b for a in norm for b in data), text)
    m.state(tuple(s[0] for s in segs[:5]))
    m.sample({'text': text, 'normalized': PathParser.tostring(norm)})


if __name__ == '__main__':
    vf.main(vf.Spec(
        'P02', case, quick=16000, thorough=400000,
        rule='random path data with all segment types, smooth runs after other types, subpaths, bearings and '
             'degenerate arcs; compared segment by segment with an independent model',
        required=['moveto', 'closepath', 'line', 'curve', 'arc', 'count', 'types', 'idempotent', 'input-unchanged',
                  'empty-arc'],
        anchors=['svgpy/path.py'],
        assumptions=['a moveto right after a moveto is an implicit lineto, as the parser stores it']))
