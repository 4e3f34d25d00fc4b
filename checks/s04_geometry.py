"""S04: the computed geometry of every element is its geometry attributes in user units."""
import io

import vf
import svgmodel as sm
import svggen as sg
from gen import angle, num, pos
from svgmodel import H, V
from svgpy import SVGDOMImplementation, SVGParser, Window

KEYS = {'circle': ['cx', 'cy', 'r'], 'ellipse': ['cx', 'cy', 'rx', 'ry'], 'rect': ['x', 'y', 'width', 'height', 'rx', 'ry'], 'line': ['x1', 'y1', 'x2', 'y2'],
        'polyline': ['points'], 'polygon': ['points'], 'path': ['d'], 'svg': ['x', 'y', 'width', 'height'], 'symbol': ['x', 'y', 'width', 'height', 'refX', 'refY'],
        'use': ['x', 'y', 'width', 'height'], 'text': ['x', 'y', 'dx', 'dy', 'rotate'], 'tspan': ['x', 'y', 'dx', 'dy', 'rotate'], 'g': [], 'defs': [], 'title': [],
        'linearGradient': [], 'marker': []}


def build(text):
    return SVGParser().parse(io.StringIO(text)).getroot()


def join(rng, items):
    out = items[0]
    for x in items[1:]:
        out += rng.choice([' ', ',', ', ', ' , ', '\n', '  ']) + x
    return rng.choice(['', '', '', ' ']) + out + rng.choice(['', '', '', ' ', '\n'])


def attrs(rng, n, up):
    """New geometry attributes for n, whose nearest viewport is up's."""
    t, a = n['tag'], {}
    n.pop('lists', None)
    if rng.random() < 0.3 and t != 'svg':
        a['font-size'] = sg.font_size(rng)
    boxed = up is not None and sm.viewbox(up) is not None
    if t in ('circle', 'ellipse', 'rect', 'line', 'polyline', 'polygon', 'path'):
        new = sg.shape(rng, kinds=[t])
        a.update(new['a'])
        for key in ('pts', 'segs'):
            if key in new:
                n[key] = new[key]
    elif t in ('svg', 'symbol'):
        sg.viewport_attrs(rng, a, n['up'] is None, boxed)
        if t == 'symbol':
            for k in ('refX', 'refY'):
                if rng.random() < 0.6:
                    a[k] = rng.choice([sg.length(rng, None, 0), rng.choice(['left', 'center', 'right'] if k == 'refX' else ['top', 'center', 'bottom'])])
    elif t == 'use':
        for k in ('x', 'y', 'width', 'height'):
            if rng.random() < 0.6:
                a[k] = 'auto' if k in ('width', 'height') and rng.random() < 0.2 else sg.length(rng, None if k in 'xy' else pos(rng), neg=k in 'xy')
    elif t in ('text', 'tspan'):
        n['lists'] = {}
        for k in ('x', 'y', 'dx', 'dy', 'rotate'):
            if rng.random() < 0.55:
                items = [sg.fmt(angle(rng)) if k == 'rotate' else sg.length(rng) for _ in range(rng.choice([1, 1, 2, 3, 5]))]
                n['lists'][k] = items
                a[k] = join(rng, items)
    return a


def want(model, n):
    t, a = n['tag'], n['a']
    if t == 'path':
        return {'d': a.get('d') if a.get('d') not in (None, 'none', '') else None}
    if t in ('polyline', 'polygon'):
        return {'points': n['pts']}
    if t == 'use':
        return {k: 0.0 if a.get(k, 'auto' if k in ('width', 'height') else '0') == 'auto' else model.length(a.get(k), H if k in ('x', 'width') else V, n)
                if k in a else 0.0 for k in ('x', 'y', 'width', 'height')}
    if t in ('text', 'tspan'):
        out = {}
        for k, axis in (('x', H), ('y', V), ('dx', H), ('dy', V), ('rotate', None)):
            items = n['lists'].get(k)
            if items is None:
                out[k] = [0.0] if t == 'text' and k in 'xy' else None
            else:
                out[k] = [float(x) if k == 'rotate' else model.length(x, axis, n) for x in items]
        return out
    if t == 'rect':
        n = dict(n, a=dict(a))
        for k, axis in (('width', H), ('height', V)):
            up = n
            while up['a'].get(k) == 'inherit':
                up = up['up']
            if up is not n:
                n['a'][k] = '%.15gpx' % model.length(up['a'][k], axis, up) if k in up['a'] else '0'
    out = model.geometry(n)
    if t == 'symbol':
        for k, axis in (('refX', H), ('refY', V)):
            v = a.get(k)
            out[k] = v if v is None or v[0].isalpha() else model.length(v, axis, n)
    return out


def flat(v):
    if isinstance(v, (list, tuple)):
        return [y for x in v for y in flat(x)]
    return [v]


def same(m, name, got, w, scale, ctx):
    if w is None or isinstance(w, str):
        m.eq(name, got, w, ctx)
        return
    g, w = flat(got), flat(w)
    if m.eq(name, len(g), len(w), ctx):
        for x, y in zip(g, w):
            m.close(name, float(x), y, 1e-9 * scale, ctx)


def check(m, rng, model, root, els, what):
    for n in sm.walk(root):
        el = els[id(n)]
        before = dict(el.attrib)
        g = el.get_computed_geometry()
        w = want(model, n)

        def ctx():
            return what, n['tag'], sm.xml(root)
        m.eq('names', sorted(g), sorted(KEYS[n['tag']]), ctx)
        scale = 1 + max([abs(x) for x in flat(list(w.values())) if isinstance(x, float)] + list(model.base(n)) + list(model.window))
        for k, v in w.items():
            same(m, 'value', g[k], v, scale, lambda: (k, ctx()))
        if n['tag'] == 'rect' and 'inherit' in n['a'].values():
            m.saw('inherited')
        m.saw('of.' + n['tag'])
        if rng.random() < 0.5:
            style = el.get_computed_style()
            for k, v in w.items():
                same(m, 'style', style[k], v, scale, lambda: (k, ctx()))
        for v in g.values():
            if isinstance(v, list):
                v.append(v[-1] if v else (1, 1))    # what is returned is the caller's own
        g.clear()
        m.eq('read-only', dict(el.attrib), before, ctx)
        again = el.get_computed_geometry()
        for k, v in w.items():
            same(m, 'again', again[k], v, scale, lambda: (k, ctx()))
        m.state(n['tag'], tuple(sorted(n['a'])), sm.viewbox(model.nearest(n)) is not None)


def tree(rng):
    root = sm.node('svg')
    root['a'].update(attrs(rng, root, None))
    if rng.random() < 0.3:
        root['a']['font-size'] = sg.font_size(rng)
    spots = [root]
    for _ in range(rng.choice([2, 4, 7])):
        up = rng.choice(spots)
        t = rng.choice(['circle', 'ellipse', 'rect', 'line', 'polyline', 'polygon', 'path', 'svg', 'symbol', 'use', 'use', 'text', 'text', 'text', 'g', 'g', 'defs', 'title',
                        'linearGradient', 'marker'])
        n = sm.add(up, sm.node(t))
        vp = n['up']
        while vp['tag'] not in ('svg', 'symbol'):
            vp = vp['up']
        n['a'].update(attrs(rng, n, vp))
        if t in ('svg', 'g', 'defs', 'symbol'):
            spots.append(n)
        if t in ('g', 'rect') and up['tag'] in ('g', 'defs') or t == 'g':
            for k in ('width', 'height'):
                x = rng.random()
                if x < 0.3 and up['tag'] in ('g', 'defs'):
                    n['a'][k] = 'inherit'
                elif t == 'g' and x < 0.8:
                    n['a'][k] = sg.length(rng, pos(rng), rel=0) if rng.random() < 0.5 else '%sem' % sg.fmt(pos(rng) / 10)
        if t == 'text':
            for _ in range(rng.choice([0, 1, 1, 2])):
                k = sm.add(n, sm.node('tspan'))
                k['a'].update(attrs(rng, k, vp))
    return root


def case(m, rng, i):
    root = tree(rng)
    el_root = build(sm.xml(root))
    win, size = None, (1280, 720)
    if rng.random() < 0.3:
        win = Window(SVGDOMImplementation())
        win.document.replace_child(el_root, win.document.document_element)
        if rng.random() < 0.8:
            size = (rng.choice([800, 320, 1000, 640]), rng.choice([600, 480, 500]))
            win.inner_width, win.inner_height = size
    model = sm.Model(root, size)
    els = dict(zip([id(x) for x in sm.walk(root)], list(el_root.iter())))
    check(m, rng, model, root, els, 'new')
    for _ in range(rng.choice([0, 1, 2])):
        n = rng.choice(list(sm.walk(root)))
        if n['tag'] in ('svg', 'symbol', 'defs', 'g', 'title'):
            n['a']['font-size'] = sg.font_size(rng)
            els[id(n)].set('font-size', n['a']['font-size'])
            m.saw('changed.font')
        else:
            el = els[id(n)]
            vp = n['up']
            while vp['tag'] not in ('svg', 'symbol'):
                vp = vp['up']
            n['a'].clear()
            n['a'].update(attrs(rng, n, vp))
            for name in list(el.attrib):
                el.remove_attribute(name)
            for name, v in n['a'].items():
                el.set(name, v)
            m.saw('changed.attributes')
        if win is not None and rng.random() < 0.5:
            model.window = (rng.choice([700, 512]), rng.choice([300, 512]))
            win.inner_width, win.inner_height = model.window
            m.saw('changed.window')
        check(m, rng, model, root, els, 'changed')
    m.sample({'svg': sm.xml(root)[:600]})


if __name__ == '__main__':
    vf.main(vf.Spec(
        'S04', case, quick=700, thorough=80000,
        rule='trees of viewports, shapes, uses and texts with every geometry attribute in every unit; attributes, fonts and windows changed and read again',
        required=['names', 'value', 'style', 'read-only', 'again', 'of.use', 'of.symbol', 'of.text', 'of.tspan', 'of.svg', 'of.path', 'of.polygon', 'changed.font', 'changed.attributes',
                  'changed.window', 'inherited'],
        anchors=['svgpy/element.py', 'svgpy/text.py', 'svgpy/dom.py', 'svgpy/core.py'],
        assumptions=['a percentage width/height of a nested svg in a viewport with a viewBox is not generated (S02 finding)']))
