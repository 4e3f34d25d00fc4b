"""P03: total path length against adaptive integration of an independent model."""
import math

import vf
from pathgen import random_path, scaled, spell, coord
from pathmodel import curves, total_length, Arc
from svgpy.path import PathParser, SVGPathSegment


def build(segs):
    return [SVGPathSegment(*s) for s in segs]


def numerically_ambiguous(segs):
    """An arc whose ends almost coincide is nearly nothing or nearly a full turn."""
    for _, c in curves(segs):
        if isinstance(c, Arc) and (abs(c.dt) < 1e-5 or abs(c.dt) > 2 * math.pi - 1e-5):
            return True
    return False


def tolerance(segs, want, unit=1):
    """Quadrature of the speed converges slowly only next to a stationary point."""
    for _, c in curves(segs):
        if getattr(c, 'kind', None) == 'C':
            sp = [c.speed(k / 64) for k in range(65)]
            if min(sp) < 0.1 * max(sp):
                return 1e-4 * (unit + want) + 1e-7
    return 1e-6 * (unit + want) + 1e-7 * len(segs)


def special_cubic(rng):
    """Degenerate cubics: collinear control points, cusps, coincident points."""
    k = rng.randrange(6)
    x, y = coord(rng), coord(rng)
    if k == 0:
        return [('M', 0, 0), ('C', 10, 0, 20, 0, 30, 0)]
    if k == 1:
        return [('M', 0, 0), ('C', x, y, -x, -y, 0, 0)]
    if k == 2:
        return [('M', 0, 0), ('C', 10, 10, 0, 10, 10, 0)]           # cusp
    if k == 3:
        return [('M', x, y), ('C', x, y, x, y, x, y)]
    if k == 4:
        return [('M', x, y), ('C', x, y, coord(rng), coord(rng), coord(rng), coord(rng))]
    return [('M', 0, 0), ('Q', x, y, 2 * x, 2 * y), ('T', coord(rng), coord(rng))]


def case(m, rng, i):
    if rng.random() < 0.1:
        segs = special_cubic(rng)
    else:
        k = rng.random()
        types = 'LHVCSQTAZM' if k < 0.6 else 'LHVMZ' if k < 0.75 else 'A' if k < 0.85 else 'CSQT'
        segs = random_path(rng, types=types, bearing=0.12 if rng.random() < 0.3 else 0)
    unit = 1
    if rng.random() < 0.12:
        segs, unit = scaled(rng, segs)
        unit = min(unit, 1)
        m.saw('scaled')
    if numerically_ambiguous(segs):
        return
    text = spell(rng, segs)
    m.event(text)
    data = PathParser.parse(text)
    before = [(s.type, s.values) for s in data]
    want = total_length(segs)
    got = PathParser.get_total_length(data)
    tol = tolerance(segs, want, unit)
    m.close('length', got, want, tol, text)
    m.eq('input-unchanged', [(s.type, s.values) for s in data], before, text)
    # additivity: the path cut in two at a subpath boundary
    cuts = [k for k in range(1, len(segs)) if segs[k][0] == 'M' and segs[k - 1][0] not in 'MmBb'
            and not any(s[0] in 'Bb' for s in segs)]
    if cuts:
        k = rng.choice(cuts)
        a, b = PathParser.get_total_length(data[:k]), PathParser.get_total_length(data[k:])
        m.close('additive', a + b, got, 2 * tol, text)
    # invariance: translating the path
    if not any(s[0] in 'Bb' for s in segs):
        norm = PathParser.normalize(data)
        if not any(s[0] in 'Aa' for s in segs):
            m.close('normalized', PathParser.get_total_length(norm), want, 2 * tol, text)
    m.state(tuple(s[0] for s in segs[:5]))
    m.sample({'text': text, 'length': float(got)})


if __name__ == '__main__':
    vf.main(vf.Spec(
        'P03', case, quick=10000, thorough=300000,
        rule='random path data of all segment types plus degenerate cubics (cusps, collinear, coincident points)',
        required=['length', 'additive', 'normalized', 'input-unchanged'],
        anchors=['svgpy/path.py'],
        assumptions=['arcs whose end points nearly coincide (within 1e-5 rad of a zero or full turn) are skipped']))
