"""P01: path data text <-> segments."""
import vf
from pathgen import random_path, scaled, spell, ARGC
from svgpy import formatter
from svgpy.path import PathParser, SVGPathSegment


def same(m, name, got, segs, tol, ctx):
    m.eq(name, [s.type for s in got], [s[0] for s in segs], ctx)
    for g, w in zip(got, segs):
        m.eq(name, len(g.values), len(w) - 1, ctx)
        for k, (a, b) in enumerate(zip(g.values, w[1:])):
            m.close(name, a, b, tol + 1e-12 * abs(b), (ctx, w))
    m.check('shape', all(s.isvalid() and s.isabsolute() == s.type.isupper() and s.isrelative() == s.type.islower()
                         for s in got), ctx)


SETTERS = {'M': 'moveto', 'L': 'lineto', 'H': 'horizontal_lineto', 'V': 'vertical_lineto', 'C': 'curveto',
           'S': 'smooth_curveto', 'Q': 'quadratic_curveto', 'T': 'smooth_quadratic_curveto', 'A': 'elliptical_arc',
           'B': 'bearing'}


def end_of(seg):
    t, v = seg[0], seg[1:]
    if t in 'ZzBb':
        return (None, None)
    if t in 'Hh':
        return (v[0], None if t == 'H' else 0)
    if t in 'Vv':
        return (None if t == 'V' else 0, v[0])
    return tuple(v[-2:])


def case(m, rng, i):
    segs = random_path(rng, n=rng.randint(1, 12), bearing=0.05)
    if rng.random() < 0.02:
        segs = []
    if segs and rng.random() < 0.1:
        segs = scaled(rng, segs)[0]
    text = spell(rng, segs)
    m.event(text)
    got = PathParser.parse(text)
    same(m, 'parse', got, segs, 0, text)
    built = []
    for s in segs:
        if s[0] in 'Zz':
            seg = SVGPathSegment(s[0])
        else:
            seg = SVGPathSegment()
            getattr(seg, 'set_%s_%s' % (SETTERS[s[0].upper()], 'abs' if s[0].isupper() else 'rel'))(*s[1:])
        built.append(seg)
        m.eq('end', tuple(seg.end), end_of(s), s)
    same(m, 'setters', built, segs, 0, text)
    m.check('setters', built == got, text)
    p = rng.choice([1, 2, 3, 6, 8])
    old, formatter.precision = formatter.precision, p
    try:
        out = PathParser.tostring(rng.choice([got, built]))
        singles = [s.tostring() for s in built]
    finally:
        formatter.precision = old
    same(m, 'round-trip', PathParser.parse(out), segs, 0.5000001 * 10 ** -p, (text, out))
    for s, t in zip(segs, singles):
        same(m, 'round-trip', PathParser.parse(t), [s], 0.5000001 * 10 ** -p, (s, t))
    again = PathParser.parse(out)
    formatter.precision = p
    try:
        m.eq('fixed-point', PathParser.tostring(again), out, (text, out))
    finally:
        formatter.precision = old
    # incomplete trailing arguments are dropped, the path before them is kept
    if segs and rng.random() < 0.3:
        t = rng.choice([k for k in ARGC if ARGC[k] > 1])
        # 'M' 'L' ... letter with too few arguments
        cut = text + t + ' ' + ' '.join(['3'] * rng.randint(0, ARGC[t] - 1))
        same(m, 'truncated', PathParser.parse(cut), segs, 0, cut)
    m.state(tuple(s[0] for s in segs[:6]))
    m.sample({'text': text, 'written': out})


if __name__ == '__main__':
    vf.main(vf.Spec(
        'P01', case, quick=16000, thorough=500000,
        rule='random path data in every spelling SVG allows (elided letters, joined numbers, arc flags, exponents)',
        required=['parse', 'setters', 'round-trip', 'end', 'truncated', 'fixed-point'],
        anchors=['svgpy/path.py']))
