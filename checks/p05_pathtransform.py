"""P05: transforming path data is applying the matrix to every point it draws."""
import math

import vf
from gen import angle, num
from pathgen import random_path, scaled, spell, coord
from pathmodel import curves, Arc
from p02_normalize import arc_problem, build, near, scale_of
from svgpy import DOMMatrix, DOMMatrixReadOnly
from svgpy.path import PathParser


def rand_matrix(rng):
    k = rng.randrange(7)
    if k == 0:
        v = (1, 0, 0, 1, coord(rng), coord(rng))
    elif k == 1:
        v = (rng.choice([2, 0.5, -1, 3, 1]), 0, 0, rng.choice([2, 0.5, -1, 3, 1]), coord(rng), coord(rng))
    elif k == 2:
        t = math.radians(angle(rng))
        v = (math.cos(t), math.sin(t), -math.sin(t), math.cos(t), coord(rng), coord(rng))
    elif k == 3:
        s = rng.uniform(0.2, 4)
        t = math.radians(angle(rng))
        v = (s * math.cos(t), s * math.sin(t), -s * math.sin(t), s * math.cos(t), 0, 0)
    elif k == 4:
        v = (1, rng.uniform(-2, 2), 0, 1, 0, 0)
    else:
        v = tuple(rng.uniform(-3, 3) for _ in range(4)) + (coord(rng), coord(rng))
    if abs(v[0] * v[3] - v[1] * v[2]) < 0.05:
        return (1, 0, 0, 1, 5, -7)
    return v


class Image(object):
    def __init__(self, c, mx):
        self.c, self.mx = c, mx
        self.p1 = self.at(1)

    def at(self, t):
        return app(self.mx, self.c.at(t))


def app(mx, p):
    return (mx[0] * p[0] + mx[2] * p[1] + mx[4], mx[1] * p[0] + mx[3] * p[1] + mx[5])


def case(m, rng, i):
    k = rng.random()
    types = 'LHVCSQTAZM' if k < 0.6 else 'AHVZ' if k < 0.8 else 'CSQTHV'
    segs = random_path(rng, types=types, bearing=0.12 if rng.random() < 0.3 else 0, degenerate=0.05)
    unit = 1
    if rng.random() < 0.12:
        segs, unit = scaled(rng, segs)
        m.saw('scaled')
    mx = rand_matrix(rng)
    text = spell(rng, segs)
    ctx = (text, mx)
    m.event(*ctx)
    data = PathParser.parse(text)
    before = [(s.type, s.values) for s in data]
    matrix = rng.choice([DOMMatrix, DOMMatrixReadOnly])(list(mx))
    out = PathParser.transform(data, matrix)
    m.eq('input-unchanged', [(s.type, s.values) for s in data], before, ctx)
    m.eq('matrix-unchanged', [float(x) for x in matrix.tolist()], [float(x) for x in mx], ctx)
    osegs = [(s.type,) + tuple(float(v) for v in s.values) for s in out]
    m.check('absolute', all(s.isvalid() and s.type in 'MLCSQTAZ' for s in out), lambda: (osegs, ctx))
    want = curves(segs)
    got = curves(osegs)
    m.eq('count', len(got), len(want), ctx)
    norm = max(abs(x) for x in mx[:4])
    tol = 1e-7 * scale_of(segs, min(unit, 1)) * (1 + norm) + (1e-7 if unit >= 1 else 1e-11) * (abs(mx[4]) + abs(mx[5]))
    for (i0, w), (i1, g) in zip(want, got):
        c2 = (ctx, segs[i0], osegs[i1])
        if isinstance(w, tuple) or isinstance(g, tuple):
            m.check('marks', isinstance(w, tuple) and isinstance(g, tuple) and w[0] == g[0], c2)
            if w[0] == 'M':
                m.check('marks', near(g[1], app(mx, w[1]), tol), c2)
            else:
                m.check('marks', near(g[1].p1, app(mx, w[1].p1), tol), c2)
            continue
        if w is None or g is None:
            m.check('empty', w is None and g is None, c2)
            continue
        if isinstance(w, Arc):
            m.check('arc', isinstance(g, Arc), c2)
            if abs(w.dt) > 2 * math.pi - 1e-4 or abs(w.dt) < 1e-4:
                continue
            problem = arc_problem(g, [Image(w, mx)])
            m.check('arc', problem is None, lambda: (problem, c2))
            m.state('arc', w.dt > 0, w.rx == w.ry, mx[0] * mx[3] - mx[1] * mx[2] > 0)
            continue
        m.eq('kind', g.kind, w.kind, c2)
        for t in (0, 0.2, 0.5, 0.8, 1):
            m.check('points', near(g.at(t), app(mx, w.at(t)), tol), lambda: (t, g.at(t), app(mx, w.at(t)), c2))
    # composition: transforming twice is transforming by the product
    mx2 = rand_matrix(rng)
    two = PathParser.transform(out, DOMMatrix(list(mx2)))
    one = PathParser.transform(data, DOMMatrix(list(mx2)).multiply(DOMMatrix(list(mx))))
    m.eq('compose', len(two), len(one), ctx)
    for a, b in zip(two, one):
        m.eq('compose', a.type, b.type, ctx)
        e1, e2 = a.end, b.end
        if e1[0] is not None:
            m.check('compose', near(e1, e2, 10 * tol * (1 + max(abs(x) for x in mx2))), (ctx, mx2))
    m.state(tuple(s[0] for s in segs[:5]))
    m.sample({'text': text, 'matrix': mx, 'transformed': PathParser.tostring(out)})


if __name__ == '__main__':
    vf.main(vf.Spec(
        'P05', case, quick=12000, thorough=300000,
        rule='random path data and non-singular 2D matrices (translations, mirrors, rotations, shears, general)',
        required=['points', 'arc', 'marks', 'count', 'compose', 'input-unchanged', 'matrix-unchanged'],
        anchors=['svgpy/path.py'],
        assumptions=['matrices have a determinant of at least 0.05']))
