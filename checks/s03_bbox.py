"""S03: bounding boxes and path data of groups, nested viewports and use elements."""
import io
import math

import vf
import svgmodel as sm
import svggen as sg
from pathmodel import curves, box
from gen import num
from s01_shapes import build, plain
from svgpy.base import SVGPathDataSettings

SHAPES = ('rect', 'circle', 'ellipse', 'line', 'polyline', 'polygon', 'path')


class Image(object):
    def __init__(self, c, mx):
        self.c, self.mx = c, mx
        self.kind = c.kind

    def at(self, t):
        return sm.app(self.mx, self.c.at(t))


def tree(rng, display):
    root = sm.node('svg')
    sg.viewport_attrs(rng, root['a'], True, False)
    nodes = [root]
    ids = []
    count = rng.randint(2, 9)
    for k in range(count):
        up = rng.choice(nodes[-4:])
        r = rng.random()
        if r < 0.28:
            n = sm.node('g')
        elif r < 0.42:
            n = sm.node('svg' if r < 0.38 else 'symbol')
            near = up
            while near['tag'] not in ('svg', 'symbol'):
                near = near['up']
            sg.viewport_attrs(rng, n['a'], False, sm.viewbox(near) is not None)
        elif r < 0.47:
            n = sm.node('defs')
        elif r < 0.62 and (ids or rng.random() < 0.2):
            n = sm.node('use')
            t = rng.choice(ids) if ids and rng.random() < 0.93 else 'nowhere'
            n['a'][rng.choice(['href', 'href', 'xlink:href'])] = '#' + t if rng.random() < 0.97 else ''
            for c in 'xy':
                if rng.random() < 0.6:
                    n['a'][c] = sg.length(rng)
        else:
            n = sg.shape(rng, sane=rng.random() < 0.9, circular=True)
            if len(n.get('pts', ())) == 1:
                n['pts'] *= 2       # (a lone moveto draws nothing)
                n['pts'][1] = (n['pts'][0][0] + 5, 3)
                sg.set_points(rng, n)
        if rng.random() < 0.45 and n['tag'] not in ('defs', 'symbol'):
            n['a']['transform'] = sg.transform(rng, rigid=rng.random() < 0.5)
        elif rng.random() < 0.06 and n['tag'] != 'symbol':
            n['a']['transform'] = rng.choice(['', 'none', ' '])
        if display and rng.random() < 0.2:
            n['a']['display'] = rng.choice(['none', 'none', 'inline', 'block'])
        i = 'n%d' % k
        n['a']['id'] = i
        if n['tag'] not in ('svg', 'symbol'):
            # (what use does with a nested svg or a symbol as its target is not specified here)
            ids.append(i)
        sm.add(up, n)
        if n['tag'] in ('g', 'svg', 'defs', 'symbol'):
            nodes.append(n)
    if ids and rng.random() < 0.3:
        # references forwards, to ancestors or to itself
        for n in sm.walk(root):
            if n['tag'] == 'use' and rng.random() < 0.5:
                for k in ('href', 'xlink:href'):
                    if k in n['a']:
                        n['a'][k] = '#' + (rng.choice(ids) if rng.random() < 0.9 else 'nowhere')
    return root


class Doc(object):
    def __init__(self, root, model):
        self.root, self.model = root, model

    def target(self, n):
        h = n['a'].get('href') or n['a'].get('xlink:href') or ''
        for x in sm.walk(self.root):
            if h and x['a'].get('id') == h[1:]:
                return x
        return None

    def circular(self, n):
        """n's content contains n itself."""
        seen, todo = [], [self.target(n)]
        while todo:
            t = todo.pop()
            if t is None or any(t is s for s in seen):
                continue
            seen.append(t)
            for x in sm.walk(t):
                if x is n:
                    return True
                if x['tag'] == 'use':
                    todo.append(self.target(x))
        return False

    def has_svg(self, n):
        """n draws through a use whose content holds a nested svg."""
        for x in sm.walk(n):
            if x['tag'] == 'use' and not self.circular(x):
                t = self.target(x)
                if t is not None and (any(y['tag'] == 'svg' for y in sm.walk(t)) or self.has_svg(t)):
                    return True
        return False

    def local(self, n):
        """From n's user space to its parent's."""
        m = self.model.own(n)
        if n['tag'] == 'svg' and n['up'] is not None:
            m = sm.mul(m, self.model.vtm(n))
        return m

    def pieces(self, n, mx, path, top=True):
        """The outline of n: [(curves...)] as images under mx; path: defs and hidden parts as get_path_data sees
        them (display is not looked at), else as the box does."""
        t = n['tag']
        if t in ('defs', 'symbol'):
            return []
        if t in ('g', 'svg'):
            out = []
            for k in n['kids']:
                if not path and k['a'].get('display') == 'none':
                    continue
                out += self.pieces(k, sm.mul(mx, self.local(k)), path, False)
            return out
        if t == 'use':
            r = self.target(n)
            if r is None or self.circular(n):
                return []
            x = self.model.length(n['a'].get('x', '0'), sm.H, n)
            y = self.model.length(n['a'].get('y', '0'), sm.V, n)
            return self.pieces(r, sm.mul(sm.mul(mx, (1, 0, 0, 1, x, y)), self.local(r)), True, False)
        out = []
        for _, c in curves(self.model.segments(n)):
            if c is None:
                continue
            if isinstance(c, tuple):
                if c[0] == 'M':
                    out.append(('M', sm.app(mx, c[1])))
                    continue
                if c[1].length() > 0:
                    out.append(Image(c[1], mx))
                out.append(('Z', sm.app(mx, c[1].p1)))
                continue
            out.append(Image(c, mx))
        return out


def pad(b):
    return None if b is None else b


def union(a, b):
    if a is None or b is None:
        return a or b
    return (min(a[0], b[0]), min(a[1], b[1]), max(a[2], b[2]), max(a[3], b[3]))


def mapped(b, m):
    if b is None:
        return None
    p = [sm.app(m, q) for q in ((b[0], b[1]), (b[2], b[1]), (b[0], b[3]), (b[2], b[3]))]
    return (min(x for x, _ in p), min(y for _, y in p), max(x for x, _ in p), max(y for _, y in p))


def extent(pieces):
    cs = [c for c in pieces if not isinstance(c, tuple)]
    return box(cs, 48) if cs else None


def loose(doc, n, top=True):
    """The union of the children's boxes, each mapped as a box: what the box may grow to at most."""
    if n['tag'] in ('defs', 'symbol'):
        return None
    if n['tag'] in ('g', 'svg'):
        b = None
        for k in n['kids']:
            if k['a'].get('display') != 'none':
                b = union(b, loose(doc, k, False))
        return b if top else mapped(b, doc.local(n))
    return extent(doc.pieces(n, doc.local(n), False))


def check(m, rng, doc, els, what):
    root = doc.root
    text = lambda: (what, sm.xml(root))
    for n in sm.walk(root):
        el = els[id(n)]
        t = n['tag']
        ctx = lambda: (t, n['a'], what, sm.xml(root))
        if doc.has_svg(n):
            continue
        if t in ('g', 'svg', 'defs', 'symbol'):
            inner = extent(doc.pieces(n, (1, 0, 0, 1, 0, 0), False))
        else:
            inner = extent(doc.pieces(n, doc.local(n), False))
        outer = loose(doc, n)
        b = el.get_bbox()
        m.event(t)
        if inner is None:
            m.check('empty', not b.width and not b.height, lambda: (repr(b), ctx()))
        else:
            got = (b.x, b.y, b.x + b.width, b.y + b.height)
            # arcs are measured on their cubic approximations
            tol = 1e-3 * max(1.0, max(abs(v) for v in outer), outer[2] - outer[0], outer[3] - outer[1])
            for k in range(4):
                s = 1 if k < 2 else -1
                m.check('bbox', s * got[k] <= s * inner[k] + tol, lambda: ('too small', got, inner, outer, ctx()))
                m.check('bbox', s * got[k] >= s * outer[k] - tol, lambda: ('too large', got, inner, outer, ctx()))
            if max(abs(a - c) for a, c in zip(inner, outer)) < tol:
                m.saw('bbox-exact')
        if t in ('g', 'svg', 'use'):
            compare(m, 'path-data', plain(el.get_path_data()), doc.pieces(n, (1, 0, 0, 1, 0, 0), True), ctx)
        if t in ('g', 'use') or t in SHAPES:
            compare(m, 'transformed', plain(el.get_transformed_path_data()), doc.pieces(n, doc.local(n), True), ctx)
        if t == 'use':
            r = doc.target(n)
            m.check('instance-root', el.instance_root is (None if r is None else els[id(r)]), ctx)
            if doc.circular(n):
                m.saw('circular')
    for n in sm.walk(root):
        m.eq('read-only', {k.replace('{%s}' % sm.XLINK, 'xlink:'): v for k, v in els[id(n)].attrib.items()}, n['a'], text)
    m.saw('symbol') if any(n['tag'] == 'symbol' for n in sm.walk(root)) else None
    m.state(tuple((n['tag'], bool(n['a'].get('transform'))) for n in sm.walk(root))[:6])


def points(pieces, eps):
    out = []
    for c in pieces:
        if isinstance(c, tuple):
            out.append(c)
            continue
        p = [c.at(k / 8) for k in range(9)]
        if max(abs(q[k] - p[0][k]) for q in p for k in (0, 1)) > eps:
            out.append(('C', p))
    return out


def compare(m, name, got, want, ctx):
    mags = [abs(v) for c in want for q in ([c[1]] if isinstance(c, tuple) else [c.at(0), c.at(0.5), c.at(1)]) for v in q]
    eps = 1e-6 * max([1.0] + mags)
    g = []
    for _, c in curves(got):
        if c is None:
            continue
        if isinstance(c, tuple):
            if c[0] == 'M':
                g.append(c)
                continue
            if c[1].length() > eps:
                g.append(c[1])
            g.append(('Z', c[1].p1))
            continue
        g.append(c)
    a, b = points(g, eps * 10), points(want, eps * 10)
    if len(a) != len(b) or [x[0] for x in a] != [x[0] for x in b]:
        # pieces around the threshold may differ
        a, b = points(g, eps * 100), points(want, eps * 100)
    if not m.eq(name, [x[0] for x in a], [x[0] for x in b], lambda: (got, ctx())):
        return
    for x, y in zip(a, b):
        ps, qs = (x[1], y[1]) if x[0] == 'C' else ([x[1]], [y[1]])
        for p, q in zip(ps, qs):
            for k in (0, 1):
                m.close(name, p[k], q[k], eps * 10, lambda: (x, y, got, ctx()))


def case(m, rng, i):
    if rng.random() < 0.15:
        return loops(m, rng)
    display = rng.random() < 0.3
    root = tree(rng, display)
    el_root = build(sm.xml(root))
    model = sm.Model(root, (1280, 720))
    doc = Doc(root, model)
    els = dict(zip([id(x) for x in sm.walk(root)], list(el_root.iter())))
    check(m, rng, doc, els, 'new')
    for _ in range(rng.choice([0, 0, 1])):
        n = rng.choice(list(sm.walk(root))[1:])
        el = els[id(n)]
        k = rng.random()
        if k < 0.5 and n['tag'] not in ('svg', 'defs', 'symbol'):
            n['a']['transform'] = sg.transform(rng)
            el.set('transform', n['a']['transform'])
        elif k < 0.7 and n['a'].get('transform'):
            del n['a']['transform']
            del el.attrib['transform']
        elif n['up'] is not None and not any(x['tag'] in ('svg', 'symbol', 'use') for x in sm.walk(n)) and n['up'] is not root:
            # moved to the end of the root
            n['up']['kids'].remove(n)
            sm.add(root, n)
            el_root.append(el)
        check(m, rng, doc, els, 'changed')
    m.sample({'svg': sm.xml(root)[:700]})


def loops(m, rng):
    """Groups of use elements, some of which lead back to the group that holds them."""
    names = ['g%d' % k for k in range(rng.randint(1, 3))]
    root = sm.node('svg', {'width': '100', 'height': '90'})
    model = sm.Model(root, (1280, 720))
    doc = Doc(root, model)
    for name in names:
        g = sm.add(root, sm.node(rng.choice(['g', 'g', 'defs']), {'id': name}))
        if g['tag'] == 'defs':
            g['a'].pop('id')
            g = sm.add(g, sm.node('g', {'id': name}))
        for k in range(rng.randint(1, 4)):
            if rng.random() < 0.3:
                sm.add(g, sm.node('rect', {'id': 'r%s%d' % (name, k), 'x': sg.fmt(num(rng)), 'width': '4', 'height': '5'}))
            else:
                sm.add(g, sm.node('use', {'href': '#' + rng.choice(names + ['nowhere', 'u%s%d' % (name, k), 'q']),
                                          'id': 'u%s%d' % (name, k), 'y': sg.fmt(num(rng))}))
    sm.add(root, sm.node('rect', {'id': 'q', 'width': '3', 'height': '2'}))
    for _ in range(rng.randint(0, 2)):
        sm.add(root, sm.node('use', {'href': '#' + rng.choice(names)}))
    el = build(sm.xml(root))
    check(m, rng, doc, dict(zip([id(x) for x in sm.walk(root)], list(el.iter()))), 'loops')


def normalized(m, rng):
    s = SVGPathDataSettings()
    s.normalize = True
    g = build('<svg xmlns="%s"><g><rect width="3" height="4" rx="1"/><path d="m1,2h3v3z"/><circle r="4" cx="9"/></g></svg>' % sm.SVG)[0]
    m.check('normalized', all(x[0] in 'MLCZ' for x in plain(g.get_path_data(s))), 'g')
    m.eq('normalized', [x[0] for x in plain(g.get_path_data())].count('M'), 3, 'g')


if __name__ == '__main__':
    vf.main(vf.Spec(
        'S03', case, quick=1600, thorough=80000, fixed=[normalized],
        rule='trees of svg, g, defs, use and the seven shapes with transforms, hidden parts, dangling and circular references',
        required=['bbox', 'bbox-exact', 'empty', 'path-data', 'transformed', 'instance-root', 'circular', 'symbol', 'read-only'],
        anchors=['svgpy/base.py', 'svgpy/element.py'],
        assumptions=['text, a and switch content, and use of a symbol, is not generated',
                     'a rotated group may have any box between the tight one and the box of its children\'s boxes']))
