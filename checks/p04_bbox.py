"""P04: the bounding box of normalized path data is tight around what is drawn."""
import math

import vf
from gen import angle
from pathgen import random_path, scaled, spell, coord
from pathmodel import box, curves, drawn
from p02_normalize import build
from svgpy import DOMMatrix
from svgpy.path import PathParser, SVGPathSegment


def case(m, rng, i):
    k = rng.random()
    types = 'LHVCSQTAZM' if k < 0.5 else 'LHVZM' if k < 0.65 else 'CSQT' if k < 0.9 else 'CLZ'
    segs = random_path(rng, types=types, bearing=0.1 if rng.random() < 0.2 else 0)
    if rng.random() < 0.15:
        # curves whose derivative degenerates to a linear or constant one on an axis
        x, y = coord(rng), coord(rng)
        d = coord(rng)
        segs = [('M', x, y)] + [rng.choice([
            ('C', x + d, y + 5, x + 2 * d, y + coord(rng), x + 3 * d, y + coord(rng)),
            ('C', x, y + d, x, y - d, x, y + 3 * d), ('Q', x + d, y + d, x + 2 * d, y), ('C', x + d, y, x + d, y, x, y),
            ('C', x + 3, y + d, x + 6, y + d, x + 9, y), ('C', x, y + d, x + d, y + d, x + d, y)])]
    unit = 1
    if rng.random() < 0.15:
        segs, unit = scaled(rng, segs)
        m.saw('scaled')
    text = spell(rng, segs)
    data = PathParser.parse(text)
    norm = PathParser.normalize(data)
    before = [(s.type, s.values) for s in norm]
    m.event(text)
    got = PathParser.get_bbox(norm)
    # what the normalized data draws; the moveto that starts the path also counts as a point
    nsegs = [(s.type,) + tuple(float(v) for v in s.values) for s in norm]
    want = box(drawn(nsegs))
    tol = 1e-6 * (min(unit, 1) + max(abs(v) for v in want))
    res = (got.x, got.y, got.x + got.width, got.y + got.height)
    for g, w in zip(res, want):
        m.close('bbox', float(g), w, tol, lambda: (text, res, want))
    m.eq('input-unchanged', [(s.type, s.values) for s in norm], before, text)
    m.check('shape', got.width >= 0 and got.height >= 0, text)
    # translating the path translates the box; a quarter turn swaps its sides
    dx, dy = coord(rng) * unit, coord(rng) * unit
    mt = DOMMatrix().translate(dx, dy)
    moved = PathParser.get_bbox(PathParser.transform(norm, mt))
    for g, w in zip((moved.x, moved.y, moved.width, moved.height), (want[0] + dx, want[1] + dy, got.width, got.height)):
        m.close('equivariance', float(g), w, 2 * tol + 1e-6 * (abs(dx) + abs(dy)), text)
    mr = DOMMatrix().rotate(rot_z=90)
    turned = PathParser.get_bbox(PathParser.transform(norm, mr))
    for g, w in zip((turned.x, turned.y, turned.width, turned.height), (-want[3], want[0], got.height, got.width)):
        m.close('equivariance', float(g), w, 2 * tol, text)
    # a box is never larger than the box of all control points, nor smaller than that of the end points
    m.state(tuple(s[0] for s in segs[:5]), got.width == 0, got.height == 0)
    m.sample({'text': text, 'bbox': [float(v) for v in want]})


if __name__ == '__main__':
    vf.main(vf.Spec(
        'P04', case, quick=5000, thorough=200000,
        rule='normalized random path data: lines, cubics with linear/constant derivatives, several subpaths',
        required=['bbox', 'equivariance', 'input-unchanged', 'shape'],
        anchors=['svgpy/path.py', 'svgpy/geometry/rect.py'],
        assumptions=['path data starts with a moveto and each subpath draws something']))
