"""S01: the outline of a basic shape is the one its geometry attributes describe."""
import io

import vf
import svgmodel as sm
import svggen as sg
from pathmodel import curves, box, drawn, total_length
from gen import num, pos
from svgpy import SVGParser
from svgpy import SVGDOMImplementation, Window
from svgpy.base import SVGPathDataSettings
from svgpy.path import PathParser


def build(text):
    return SVGParser().parse(io.StringIO(text)).getroot()


def holder(rng):
    """An outer svg (with an inner one sometimes) and the node that takes the shape."""
    root = sm.node('svg')
    sg.viewport_attrs(rng, root['a'], True, False)
    top = root
    if rng.random() < 0.3:
        root['a']['font-size'] = sg.font_size(rng)
    if rng.random() < 0.35:
        top = sm.add(top, sm.node('g', {'font-size': sg.font_size(rng)} if rng.random() < 0.5 else {}))
    if rng.random() < 0.35:
        inner = sm.node('svg')
        sg.viewport_attrs(rng, inner['a'], False, sm.viewbox(root) is not None)
        top = sm.add(top, inner)
    if rng.random() < 0.2:
        top = sm.add(top, sm.node('g', {'transform': sg.transform(rng)}))
    return root, top


def plain(data):
    return [(s.type,) + tuple(float(v) for v in s.values) for s in data]


def strokes(segs, eps):
    """The subpaths' start points and the curves that are not single points."""
    out = []
    for _, c in curves(segs):
        if c is None:
            continue
        if isinstance(c, tuple):
            if c[0] == 'Z' and c[1].length() > eps:
                out.append(('L', [c[1].at(k / 8) for k in range(9)]))
            out.append(('M', c[1]) if c[0] == 'M' else ('Z', c[1].p1))
        elif max(abs(c.at(t)[k] - c.at(0)[k]) for t in (0.33, 0.5, 1) for k in (0, 1)) > eps:
            out.append((c.kind, [c.at(k / 8) for k in range(9)]))
    return out


def same(m, name, got, want, eps, ctx):
    g, w = strokes(got, eps), strokes(want, eps)
    if not m.eq(name, [x[0] for x in g], [x[0] for x in w], ctx):
        return
    for a, b in zip(g, w):
        pa, pb = (a[1], b[1]) if a[0] in 'LCA' else ([a[1]], [b[1]])
        for p, q in zip(pa, pb):
            for k in (0, 1):
                m.close(name, p[k], q[k], eps, lambda: (ctx, a, b))


def covers(m, name, got, want, eps, ctx):
    """Normalized data: every point of the wanted outline is approached (arcs become cubics, 3e-4 of the radius)."""
    a, b = box(drawn(got)), box(drawn(want))
    for k in range(4):
        m.close(name, a[k], b[k], eps, ctx)


def check(m, rng, model, root, n, el, what):
    ctx = lambda: (what, sm.xml(root))
    g = el.get_computed_geometry()
    want = model.geometry(n)
    scale = 1 + max([abs(v) for v in want.values()] or [0])
    bad = n['tag'] == 'rect' and min(want[k] for k in ('width', 'height', 'rx', 'ry')) < 0
    for k, v in want.items():
        if bad and k in ('rx', 'ry'):
            continue         # an invalid size: what is drawn is compared
        if not m.check('geometry', k in g, lambda: (k, ctx())):
            continue
        m.close('geometry', float(g[k]), v, 1e-9 * scale, lambda: (k, ctx()))
    segs = model.segments(n)
    data = el.get_path_data()
    got = plain(data)
    m.event(n['tag'], n['a'])
    if not segs:
        m.eq('nothing', got, [], ctx)
        m.eq('nothing', el.get_total_length(), 0, ctx)
    else:
        big = 1 + max([abs(v) for s in segs for v in s[1:]] or [0])
        eps = 1e-7 * big
        m.check('outline', got and got[0][0] in 'Mm', ctx)
        same(m, 'outline', got, segs, eps, ctx)
        m.close('length', float(el.get_total_length()), total_length(segs), 1e-5 * big * len(segs), ctx)
        if n['tag'] == 'path':
            # the segments as they were written
            m.eq('as-written', [s[0] for s in got], [s[0] for s in segs], ctx)
    st = SVGPathDataSettings()
    m.eq('plain', plain(el.get_path_data(st)), got, ctx)
    st.normalize = True
    norm = plain(el.get_path_data(st))
    m.check('normalized', all(s[0] in 'MLCZ' for s in norm), lambda: (norm, ctx()))
    m.eq('normalized', bool(norm), bool(got), ctx)
    if norm and n['tag'] in ('rect', 'circle', 'ellipse', 'line', 'polygon', 'polyline') and len(norm) > 1:
        covers(m, 'normalized', norm, segs, 1e-3 * (1 + max(abs(v) for s in segs for v in s[1:])), ctx)
    # the element is only read
    m.eq('read-only', dict(el.attrib), n['a'], ctx)
    if n['tag'] in ('polygon', 'polyline'):
        m.eq('points', [tuple(float(v) for v in p) for p in el.points], n['pts'], ctx)
    m.state(n['tag'], tuple(sorted(n['a'])), tuple(sorted({sm.split(v)[1] for k, v in n['a'].items()
            if k in ('x', 'y', 'cx', 'cy', 'r', 'rx', 'ry', 'width', 'height') and v != 'auto'})), bool(segs))


def case(m, rng, i):
    root, top = holder(rng)
    n = sm.add(top, sg.shape(rng, negative=True))
    el_root = build(sm.xml(root))
    win = None
    size = (1280, 720)
    if rng.random() < 0.25:
        win = Window(SVGDOMImplementation())
        win.document.replace_child(el_root, win.document.document_element)
        if rng.random() < 0.8:
            size = (rng.choice([800, 320, 1000, 640]), rng.choice([600, 480, 500]))
            win.inner_width, win.inner_height = size
    model = sm.Model(root, size)
    els = dict(zip([id(x) for x in sm.walk(root)], list(el_root.iter())))
    el = els[id(n)]
    check(m, rng, model, root, n, el, 'new')
    for _ in range(rng.choice([0, 1, 2, 3])):
        # change an attribute of the shape or of a viewport and look again
        k = rng.random()
        if k < 0.5:
            new = sg.shape(rng, kinds=[n['tag']], negative=True)
            n['a'].clear()
            n['a'].update(new['a'])
            for key in ('pts', 'segs'):
                if key in new:
                    n[key] = new[key]
            for name in list(el.attrib):
                del el.attrib[name]
            for name, v in n['a'].items():
                (rng.choice([el.set, el.set_attribute]) if v else el.set)(name, v)
        elif k < 0.6 and n['tag'] in ('polygon', 'polyline'):
            n['pts'] = [(round(float(num(rng)), 3), round(float(num(rng)), 3)) for _ in range(rng.choice([1, 2, 3, 6]))]
            el.points = list(n['pts'])
            n['a']['points'] = el.get('points')
        elif k < 0.7 and n['tag'] == 'path':
            data = el.get_path_data()
            before = plain(data)
            el.set_path_data(data)
            n['a']['d'] = el.get('d')
            m.eq('set-path-data', [s[0] for s in plain(el.get_path_data())], [s[0] for s in before], el.get('d'))
        elif k < 0.75 and n['tag'] == 'path':
            el.set_path_data([] if rng.random() < 0.5 else None)
            n['segs'] = []
            n['a']['d'] = el.get('d')
            m.eq('set-path-data', plain(el.get_path_data()), [], 'none')
            m.eq('set-path-data', el.get_total_length(), 0, 'none')
            break
        else:
            p = rng.choice([x for x in sm.walk(root) if x is not n])
            if p['tag'] == 'svg':
                a = {}
                up = model.nearest(p['up']) if p['up'] is not None else None
                if any(sm.viewbox(x) is None for x in [p]) or all(x['tag'] != 'svg' or x is p for x in sm.walk(p)):
                    sg.viewport_attrs(rng, a, p['up'] is None, up is not None and sm.viewbox(up) is not None)
                    if p['up'] is None and any(x['tag'] == 'svg' and x is not p for x in sm.walk(p)):
                        a.pop('viewBox', None)
                    for key in ('x', 'y', 'width', 'height', 'viewBox', 'preserveAspectRatio'):
                        p['a'].pop(key, None)
                        els[id(p)].attrib.pop(key, None)
                    p['a'].update(a)
                    for key, v in a.items():
                        els[id(p)].set(key, v)
            else:
                p['a']['font-size'] = sg.font_size(rng)
                els[id(p)].set('font-size', p['a']['font-size'])
        check(m, rng, model, root, n, el, 'changed')
    m.sample({'svg': sm.xml(root)[:600]})


def wrong_settings(m, rng):
    for tag, a in (('rect', {'width': '3', 'height': '3'}), ('circle', {'r': '3'}), ('ellipse', {'rx': '3'}),
                   ('path', {'d': 'M0,0L1,1'})):
        el = build(sm.xml(sm.node('svg', {}, [sm.node(tag, a)])))[0]
        m.raises('settings-type', TypeError, lambda: el.get_path_data('normalize'), tag)


if __name__ == '__main__':
    vf.main(vf.Spec(
        'S01', case, quick=3200, thorough=150000, fixed=[wrong_settings],
        rule='the seven basic shapes with every unit, auto radii, zero sizes, odd viewports and font sizes; '
             'attributes changed and read again',
        required=['geometry', 'outline', 'nothing', 'length', 'normalized', 'read-only', 'points', 'set-path-data',
                  'as-written'],
        anchors=['svgpy/element.py', 'svgpy/base.py'],
        assumptions=['a percentage width/height of a nested svg in a viewport with a viewBox is not generated (S02 finding)']))
