"""Random SVG documents for the geometry checks, as svgmodel nodes."""
import svgmodel as sm
from gen import angle, num, pos

ABSU = ['', '', '', 'px', 'mm', 'cm', 'in', 'pt', 'pc', 'q', 'Q', 'PX', 'Mm']
REL = ['em', 'rem', '%', 'vw', 'vh', 'vmin', 'vmax', '%', 'Em']
PER = {'in': 0.02, 'cm': 0.05, 'mm': 0.5, 'pc': 0.1, 'em': 0.1, 'rem': 0.1}


def fmt(x):
    x = round(x, 4)
    if x == int(x):
        return str(int(x))
    return ('%.4f' % x).rstrip('0')


def length(rng, value=None, rel=0.35, neg=True):
    """A length text of moderate size."""
    u = rng.choice(REL) if rng.random() < rel else rng.choice(ABSU)
    if value is None:
        value = num(rng) if neg else pos(rng)
    t = fmt(value * PER.get(u.lower(), 1.0))
    if rng.random() < 0.05 and not t.startswith('-'):
        t = '+' + t
    return t + u


def transform(rng, n=None, rigid=False):
    """A transform attribute text with det bounded away from zero."""
    out = []
    for _ in range(n if n is not None else rng.choice([1, 1, 1, 2, 3])):
        k = rng.randrange(4 if rigid else 7)
        if k < 2:
            out.append('translate(%s)' % rng.choice([' ', ',', ', ']).join(fmt(num(rng)) for _ in range(rng.choice([1, 2, 2]))))
        elif k == 2:
            out.append('scale(%s)' % ','.join(fmt(rng.choice([2, 0.5, -1, 3, 1.5, 0.25])) for _ in range(rng.choice([1, 2]))))
        elif k == 3:
            out.append('rotate(%s)' % rng.choice(['90', '180', '-90', '270']) if rigid else 'rotate(%s)' % fmt(angle(rng)))
        elif k == 4:
            out.append('rotate(%s)' % ' '.join(fmt(v) for v in (angle(rng), num(rng), num(rng))))
        elif k == 5:
            out.append('%s(%s)' % (rng.choice(['skewX', 'skewY']), rng.choice(['10', '-20', '45', '30'])))
        else:
            out.append('matrix(%s)' % ' '.join(fmt(v) for v in (1 + rng.random(), rng.uniform(-.4, .4), rng.uniform(-.4, .4),
                                                               1 + rng.random(), num(rng), num(rng))))
    return rng.choice([' ', ', ', ' ', '']).join(out)


def viewbox(rng):
    v = [num(rng) if rng.random() < 0.5 else 0, num(rng) if rng.random() < 0.5 else 0, pos(rng), pos(rng)]
    if v[2] < 1:
        v[2] = 1
    if v[3] < 1:
        v[3] = 1
    t = rng.choice([' ', ' ', ',', ', ', '  ']).join(fmt(x) for x in v)
    return t if rng.random() < 0.9 else ' ' + t + '\n'


ALIGNS = ['x%sY%s' % (a, b) for a in ('Min', 'Mid', 'Max') for b in ('Min', 'Mid', 'Max')] + ['none']


def par(rng):
    t = rng.choice(ALIGNS)
    k = rng.random()
    return t if k < 0.3 else t + ' meet' if k < 0.55 else t + ' slice'


def viewport_attrs(rng, a, outer, up_has_viewbox):
    """x, y, width, height, viewBox of an svg element.  Relative to a parent that has a viewBox only absolute
    and font units are used (the other case is a recorded finding)."""
    def size():
        if up_has_viewbox:
            return rng.choice([lambda: length(rng, pos(rng), 0, False), lambda: fmt(pos(rng) / 10) + 'em'])()
        return length(rng, rng.choice([50, 100, 25, pos(rng)]), 0.4, False)
    for k in ('width', 'height'):
        if up_has_viewbox or rng.random() < 0.8:
            a[k] = size()
        elif rng.random() < 0.3:
            a[k] = 'auto'
    if not outer or rng.random() < 0.1:
        for k in ('x', 'y'):
            if rng.random() < 0.6:
                a[k] = length(rng, None, 0, True) if up_has_viewbox else length(rng)
    if rng.random() < 0.6:
        a['viewBox'] = viewbox(rng)
        if rng.random() < 0.7:
            a['preserveAspectRatio'] = par(rng)


def shape(rng, sane=False, kinds=None, circular=False, negative=False):
    """A shape node.  sane: always draws something."""
    t = rng.choice(kinds or ['rect', 'circle', 'ellipse', 'line', 'polyline', 'polygon', 'path'])
    n = sm.node(t)
    a = n['a']

    def put(name, neg=True, p=0.85, auto=0.0):
        if rng.random() < auto:
            a[name] = 'auto'
        elif sane or rng.random() < p:
            a[name] = length(rng, None if neg else pos(rng), neg=neg)
    if t == 'circle':
        put('cx'), put('cy'), put('r', False, 0.95)
    elif t == 'ellipse':
        put('cx'), put('cy')
        if sane or rng.random() < 0.6:
            put('rx', False), put('ry', False)
        else:
            put('rx', False, 0.5, 0.2), put('ry', False, 0.5, 0.2)
    elif t == 'rect':
        put('x'), put('y'), put('width', False), put('height', False)
        k = rng.random()
        if k < 0.55:
            for name in ('rx', 'ry'):
                if rng.random() < 0.65:
                    a[name] = 'auto' if rng.random() < 0.15 else length(rng, pos(rng, 60), 0.4, False)
    elif t == 'line':
        put('x1'), put('y1'), put('x2'), put('y2')
        if not sane and rng.random() < 0.1:
            a.update({'x2': a.get('x1', '0'), 'y2': a.get('y1', '0')})
    elif t in ('polyline', 'polygon'):
        n['pts'] = [(round(float(num(rng)), 4), round(float(num(rng)), 4)) for _ in range(rng.choice([2, 3, 3, 4, 5, 8] if sane else [0, 1, 2, 3, 4, 5]))]
        set_points(rng, n)
    else:
        from pathgen import random_path, spell
        n['segs'] = random_path(rng, n=rng.choice([2, 3, 4, 6]), types='LHVCSQTAZM', degenerate=0.02)
        if circular:
            n['segs'] = [(q[0], q[1], q[1]) + q[3:] if q[0] in 'Aa' else q for q in n['segs']]
        a['d'] = spell(rng, n['segs'])
    if not sane and rng.random() < 0.06:
        k = rng.choice([k for k in ('r', 'rx', 'ry', 'width', 'height') if k in a] or [''])
        if k and a[k] != 'auto':
            a[k] = rng.choice(['0', '0px', '0%'] + (['-5', '-0.5em', '-3%'] if negative else []))
    return n


def set_points(rng, n):
    if not n['pts']:
        if rng.random() < 0.5:
            n['a'].pop('points', None)
        else:
            n['a']['points'] = rng.choice(['', ' '])
        return
    if rng.random() < 0.5:
        t = rng.choice([' ', '\n', '  ']).join('%s,%s' % (fmt(x), fmt(y)) for x, y in n['pts'])
    else:
        t = rng.choice([' ', ',', ', ']).join('%s %s' % (fmt(x), fmt(y)) for x, y in n['pts'])
    n['a']['points'] = t


def font_size(rng):
    return rng.choice(['20', '12px', '18pt', '2em', '150%', '1.5rem', '24', '10mm', '4', '0.5em'])
