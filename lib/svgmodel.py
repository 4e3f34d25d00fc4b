"""An independent model of an SVG document's geometry: lengths, viewports, transforms, outlines, boxes.

A node is a dict: tag, a (attributes), kids, up.  Nothing here imports svgpy.
"""
import math
from xml.sax.saxutils import quoteattr

SVG = 'http://www.w3.org/2000/svg'
XLINK = 'http://www.w3.org/1999/xlink'
ABS = {'': 1.0, 'px': 1.0, 'in': 96.0, 'cm': 96 / 2.54, 'mm': 96 / 25.4, 'q': 96 / 101.6, 'pt': 96 / 72, 'pc': 16.0}
H, V, O = 'h', 'v', 'o'


def node(tag, a=None, kids=()):
    n = {'tag': tag, 'a': dict(a or {}), 'kids': list(kids), 'up': None}
    for k in n['kids']:
        k['up'] = n
    return n


def add(parent, child):
    parent['kids'].append(child)
    child['up'] = parent
    return child


def walk(n):
    yield n
    for k in n['kids']:
        for x in walk(k):
            yield x


def xml(n, top=True):
    s = '<' + n['tag']
    if top:
        s += ' xmlns="%s" xmlns:xlink="%s"' % (SVG, XLINK)
    for k, v in n['a'].items():
        s += ' %s=%s' % (k, quoteattr(v))
    if n['kids']:
        return s + '>' + ''.join(xml(k, False) for k in n['kids']) + '</%s>' % n['tag']
    return s + '/>'


def split(text):
    """'12.5em' -> (12.5, 'em')"""
    t = text.strip()
    i = len(t)
    while i and (t[i - 1].isalpha() or t[i - 1] == '%'):
        i -= 1
    u = t[i:].lower()
    num = t[:i]
    if u.startswith('e') and u not in ('em', 'ex'):
        raise ValueError(text)
    return float(num), u


class Model(object):
    def __init__(self, root, window, default_font=16.0):
        self.root, self.window, self.default_font = root, window, default_font

    # -- lengths
    def font_size(self, n):
        while n is not None:
            t = n['a'].get('font-size')
            if t is not None:
                v, u = split(t)
                if u == 'em' or u == '%':
                    p = self.font_size(n['up']) if n['up'] is not None else self.default_font
                    px = v * p / (1 if u == 'em' else 100)
                elif u == 'rem':
                    px = v * (self.font_size(self.root) if n['up'] is not None else self.default_font)
                else:
                    px = v * ABS[u]
                return max(px, 10.0)
            n = n['up']
        return self.default_font

    def nearest(self, n):
        while n is not None and n['tag'] not in ('svg', 'symbol'):
            n = n['up']
        return n

    def outer(self, n):
        out = None
        while n is not None:
            if n['tag'] == 'svg':
                out = n
            n = n['up']
        return out

    def base(self, n):
        """The lengths that percentages on n refer to: the nearest viewport's user space."""
        vp = self.nearest(n)
        if vp is None:
            return self.window
        vb = viewbox(vp)
        if vb is not None:
            return vb[2], vb[3]
        return self.viewport(vp)[2:]

    def length(self, text, axis, n):
        v, u = split(text)
        if u in ABS:
            return v * ABS[u]
        if u == 'em':
            return v * self.font_size(n)
        if u == 'rem':
            return v * self.font_size(self.root)
        return v / 100 * self.pick(u, axis, self.base(n))

    def pick(self, u, axis, wh):
        w, h = wh
        if u == '%':
            return w if axis == H else h if axis == V else math.sqrt((w * w + h * h) / 2)
        return {'vw': w, 'vh': h, 'vmin': min(w, h), 'vmax': max(w, h)}[u]

    def viewport(self, n):
        """x, y, width, height of the viewport that n (svg, symbol) establishes."""
        up = self.nearest(n['up']) if n['up'] is not None else None
        ref = self.window if up is None else self.viewport(up)[2:]
        out = []
        for name, default, axis in (('x', '0', H), ('y', '0', V), ('width', '100%', H), ('height', '100%', V)):
            t = n['a'].get(name, default)
            if t == 'auto':
                t = '100%'
            v, u = split(t)
            if u in ('%', 'vw', 'vh', 'vmin', 'vmax'):
                out.append(v / 100 * self.pick(u, axis, ref))
            else:
                out.append(self.length(t, axis, n))
        return out

    # -- transforms
    def vtm(self, n):
        x, y, w, h = self.viewport(n)
        vb = viewbox(n)
        if vb is None:
            return (1, 0, 0, 1, x, y)
        align, slice_ = par(n['a'].get('preserveAspectRatio', ''))
        sx, sy = w / vb[2], h / vb[3]
        if align != 'none':
            sx = sy = max(sx, sy) if slice_ else min(sx, sy)
        tx, ty = x - vb[0] * sx, y - vb[1] * sy
        if align != 'none':
            fx = {'xMin': 0, 'xMid': 0.5, 'xMax': 1}[align[:4]]
            fy = {'YMin': 0, 'YMid': 0.5, 'YMax': 1}[align[4:]]
            tx += fx * (w - vb[2] * sx)
            ty += fy * (h - vb[3] * sy)
        return (sx, 0, 0, sy, tx, ty)

    def own(self, n):
        t = n['a'].get('transform')
        if t is None or n['tag'] == 'symbol':
            return (1, 0, 0, 1, 0, 0)
        return tmat(t)

    def step(self, n):
        m = self.own(n)
        if n['tag'] in ('svg', 'symbol'):
            m = mul(m, self.vtm(n))
        return m

    def ctm(self, n, screen=False, zoom=(1, 0, 0)):
        """From n's user space to that of the viewport's parent (the nearest one, or the outermost)."""
        far = self.outer(n)
        if far is None:
            return (1, 0, 0, 1, 0, 0)
        m = self.step(n)
        p = n
        while p is not far:
            p = p['up']
            m = mul(self.step(p), m)
            if not screen and p['tag'] in ('svg', 'symbol'):
                break
        if screen:
            s, x, y = zoom
            m = mul((s, 0, 0, s, x, y), m)
        return m

    # -- outlines
    def geometry(self, n):
        a = n['a']
        t = n['tag']

        def ln(name, axis, default='0'):
            return self.length(a.get(name, default), axis, n)
        if t == 'circle':
            return {'cx': ln('cx', H), 'cy': ln('cy', V), 'r': ln('r', O)}
        if t == 'ellipse' or t == 'rect':
            rx = a.get('rx', 'auto')
            ry = a.get('ry', 'auto')
            fx = None if rx == 'auto' else self.length(rx, H, n)
            fy = None if ry == 'auto' else self.length(ry, V, n)
            if fx is None and fy is None:
                fx = fy = 0.0
            elif fx is None:
                fx = fy
            elif fy is None:
                fy = fx
            if t == 'ellipse':
                return {'cx': ln('cx', H), 'cy': ln('cy', V), 'rx': fx, 'ry': fy}
            w = 0.0 if a.get('width', 'auto') == 'auto' else ln('width', H)
            h = 0.0 if a.get('height', 'auto') == 'auto' else ln('height', V)
            return {'x': ln('x', H), 'y': ln('y', V), 'width': w, 'height': h,
                    'rx': min(fx, w / 2), 'ry': min(fy, h / 2)}
        if t == 'line':
            return {'x1': ln('x1', H), 'y1': ln('y1', V), 'x2': ln('x2', H), 'y2': ln('y2', V)}
        if t in ('svg', 'symbol'):
            return dict(zip(('x', 'y', 'width', 'height'), self.viewport(n)))
        return {}

    def segments(self, n):
        """The outline in n's own user space as absolute segments; [] when nothing is drawn."""
        t = n['tag']
        g = self.geometry(n)
        if t in ('circle', 'ellipse'):
            rx, ry = (g['r'], g['r']) if t == 'circle' else (g['rx'], g['ry'])
            if rx <= 0 or ry <= 0:
                return []
            x, y = g['cx'], g['cy']
            return [('M', x + rx, y)] + [('A', rx, ry, 0, 0, 1, px, py) for px, py in
                                         ((x, y + ry), (x - rx, y), (x, y - ry), (x + rx, y))] + [('Z',)]
        if t == 'rect':
            x, y, w, h, rx, ry = (g[k] for k in ('x', 'y', 'width', 'height', 'rx', 'ry'))
            if w <= 0 or h <= 0:
                return []
            if rx <= 0 or ry <= 0:
                return [('M', x, y), ('L', x + w, y), ('L', x + w, y + h), ('L', x, y + h), ('Z',)]
            return [('M', x + rx, y), ('L', x + w - rx, y), ('A', rx, ry, 0, 0, 1, x + w, y + ry),
                    ('L', x + w, y + h - ry), ('A', rx, ry, 0, 0, 1, x + w - rx, y + h),
                    ('L', x + rx, y + h), ('A', rx, ry, 0, 0, 1, x, y + h - ry),
                    ('L', x, y + ry), ('A', rx, ry, 0, 0, 1, x + rx, y), ('Z',)]
        if t == 'line':
            if abs(g['x2'] - g['x1']) < 1e-9 and abs(g['y2'] - g['y1']) < 1e-9:
                return []
            return [('M', g['x1'], g['y1']), ('L', g['x2'], g['y2'])]
        if t in ('polyline', 'polygon'):
            p = n['pts']
            if not p:
                return []
            s = [('M',) + p[0]] + [('L',) + q for q in p[1:]]
            if t == 'polygon' and len(p) > 1:
                s.append(('Z',))
            return s
        if t == 'path':
            return list(n['segs'])
        raise KeyError(t)


def viewbox(n):
    t = n['a'].get('viewBox')
    if t is None:
        return None
    v = [float(x) for x in t.replace(',', ' ').split()]
    return v if len(v) == 4 else None


def par(text):
    p = text.split()
    align = p[0] if p else 'xMidYMid'
    return align, len(p) > 1 and p[1] == 'slice'


def mul(m, n):
    return (m[0] * n[0] + m[2] * n[1], m[1] * n[0] + m[3] * n[1], m[0] * n[2] + m[2] * n[3],
            m[1] * n[2] + m[3] * n[3], m[0] * n[4] + m[2] * n[5] + m[4], m[1] * n[4] + m[3] * n[5] + m[5])


def app(m, p):
    return (m[0] * p[0] + m[2] * p[1] + m[4], m[1] * p[0] + m[3] * p[1] + m[5])


def tmat(text):
    m = (1, 0, 0, 1, 0, 0)
    for part in text.split(')'):
        if '(' not in part:
            continue
        f, args = part.split('(')
        f = f.strip().strip(',').strip()
        v = [float(x) for x in args.replace(',', ' ').split()]
        if f == 'matrix':
            k = tuple(v)
        elif f == 'translate':
            k = (1, 0, 0, 1, v[0], v[1] if len(v) > 1 else 0)
        elif f == 'scale':
            k = (v[0], 0, 0, v[1] if len(v) > 1 else v[0], 0, 0)
        elif f == 'rotate':
            c, s = math.cos(math.radians(v[0])), math.sin(math.radians(v[0]))
            k = (c, s, -s, c, 0, 0)
            if len(v) > 1:
                k = mul(mul((1, 0, 0, 1, v[1], v[2]), k), (1, 0, 0, 1, -v[1], -v[2]))
        elif f == 'skewX':
            k = (1, 0, math.tan(math.radians(v[0])), 1, 0, 0)
        elif f == 'skewY':
            k = (1, math.tan(math.radians(v[0])), 0, 1, 0, 0)
        else:
            raise ValueError(text)
        m = mul(m, k)
    return m
