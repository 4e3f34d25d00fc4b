"""S02: viewports, the viewBox transform and the current transformation matrices."""
import io

import vf
import svgmodel as sm
import svggen as sg
from gen import num, pos
from svgpy import SVGParser, SVGDOMImplementation, Window
from svgpy.base import SVGPreserveAspectRatio as P


def build(text):
    return SVGParser().parse(io.StringIO(text)).getroot()


def tree(rng):
    root = sm.node('svg')
    sg.viewport_attrs(rng, root['a'], True, False)
    if rng.random() < 0.15:
        root['a']['transform'] = sg.transform(rng)
    nodes = [root]
    for _ in range(rng.randint(1, 8)):
        up = rng.choice(nodes[-3:])
        k = rng.random()
        if k < 0.45:
            n = sm.node('svg' if k < 0.4 else 'symbol')
            near = up if up['tag'] in ('svg', 'symbol') else None
            p = up
            while near is None:
                p = p['up']
                near = p if p['tag'] in ('svg', 'symbol') else None
            sg.viewport_attrs(rng, n['a'], False, sm.viewbox(near) is not None)
            if rng.random() < 0.2 and n['tag'] == 'svg':
                n['a']['transform'] = sg.transform(rng)
        elif k < 0.75:
            n = sm.node('g')
            if rng.random() < 0.7:
                n['a']['transform'] = sg.transform(rng)
            elif rng.random() < 0.2:
                n['a']['transform'] = rng.choice(['', ' ', 'none'])
            if rng.random() < 0.15:
                n['a']['font-size'] = sg.font_size(rng)
        else:
            n = sm.node(rng.choice(['rect', 'circle', 'path', 'text', 'use', 'defs']))
            if rng.random() < 0.6:
                n['a']['transform'] = sg.transform(rng)
            sm.add(up, n)
            continue
        nodes.append(sm.add(up, n))
    return root


def mat(mx):
    return (mx.a, mx.b, mx.c, mx.d, mx.e, mx.f)


def close(m, name, got, want, ctx):
    lin = max(1e-12, max(abs(v) for v in want[:4]))
    off = max(1.0, max(abs(v) for v in want[4:]), lin)
    for k in range(6):
        m.close(name, float(got[k]), want[k], 1e-8 * (lin if k < 4 else off), lambda: (got, want, ctx()))


def check(m, rng, model, root, els, zoom, what):
    for n in sm.walk(root):
        el = els[id(n)]
        ctx = lambda: (what, n['tag'], n['a'], sm.xml(root))
        if n['tag'] in ('svg', 'symbol'):
            vp = el.get_viewport_size()
            for got, want in zip(vp, model.viewport(n)):
                m.close('viewport', got.value(), want, 1e-9 * (1 + abs(want)), ctx)
            close(m, 'viewbox-transform', mat(el.get_viewport_transformation_matrix()), model.vtm(n), ctx)
            vb = sm.viewbox(n)
            got = el.view_box
            m.eq('viewbox', None if got is None else [x.value() for x in got], vb, ctx)
            align, slice_ = sm.par(n['a'].get('preserveAspectRatio', ''))
            p = el.preserve_aspect_ratio
            m.eq('aspect', p.align, getattr(P, 'SVG_PRESERVEASPECTRATIO_' + align.upper()), ctx)
            m.eq('aspect', p.meet_or_slice, P.SVG_MEETORSLICE_SLICE if slice_ else P.SVG_MEETORSLICE_MEET, ctx)
        else:
            up = model.nearest(n)
            for got, want in zip(el.get_viewport_size(), model.viewport(up)):
                m.close('viewport', got.value(), want, 1e-9 * (1 + abs(want)), ctx)
        if n['tag'] in ('svg', 'g', 'rect', 'circle', 'path', 'text', 'use', 'defs') and not in_symbol(n):
            close(m, 'ctm', mat(el.get_ctm()), model.ctm(n), ctx)
            close(m, 'screen-ctm', mat(el.get_screen_ctm()), model.ctm(n, True, zoom), ctx)
        owners(m, model, n, el, els, ctx)
        m.event(n['tag'])
    m.state(tuple((n['tag'], 'viewBox' in n['a'], 'transform' in n['a']) for n in sm.walk(root))[:6])


def in_symbol(n):
    """What maps the content of a symbol that is not drawn is left open."""
    while n is not None and n['tag'] != 'symbol':
        n = n['up']
    return n is not None


def owners(m, model, n, el, els, ctx):
    """The elements that hold n, by their kind."""
    up, svgs, ports = n, [], []
    while up is not None:
        if up['tag'] == 'svg':
            svgs.append(up)
        if up['tag'] in ('svg', 'symbol'):
            ports.append(up)
        up = up['up']

    def same(what, got, want):
        m.check('owner', got is (None if want is None else els[id(want)]), lambda: (what, got, want and want['a'], ctx()))
    top = n is svgs[-1]
    same('owner', el.owner_svg_element, None if top else [s for s in svgs if s is not n][0])
    same('viewport', el.viewport_element, None if top else [s for s in ports if s is not n][0])
    same('nearest-svg', el.get_nearest_svg_element(), svgs[0])
    same('nearest', el.get_nearest_viewport_element(), ports[0])
    same('farthest-svg', el.get_farthest_svg_element(), svgs[-1])
    same('farthest', el.get_farthest_viewport_element(), ports[-1])


def case(m, rng, i):
    root = tree(rng)
    for n in sm.walk(root):
        if n['a'].get('transform', 'x').strip() in ('', 'none'):
            n['own'] = n['a']['transform']
    el_root = build(sm.xml(root))
    size = (1280, 720)
    win = None
    if rng.random() < 0.3:
        win = Window(SVGDOMImplementation())
        win.document.replace_child(el_root, win.document.document_element)
        if rng.random() < 0.8:
            size = (rng.choice([800, 320, 1000, 640]), rng.choice([600, 480, 500]))
            win.inner_width, win.inner_height = size
    model = sm.Model(root, size)
    els = dict(zip([id(x) for x in sm.walk(root)], list(el_root.iter())))
    zoom = (1, 0, 0)
    check(m, rng, model, root, els, zoom, 'new')
    for _ in range(rng.choice([0, 0, 1, 2])):
        k = rng.random()
        n = rng.choice([x for x in sm.walk(root) if x['tag'] != 'symbol'])
        el = els[id(n)]
        if k < 0.35:
            zoom = (rng.choice([2, 0.5, 3, 1]), rng.choice([0, 10, -7.5]), rng.choice([0, 3, 20]))
            el_root.current_scale = zoom[0]
            el_root.current_translate = zoom[1], zoom[2]
            m.eq('zoom', (el_root.current_scale, tuple(el_root.current_translate)), (zoom[0], zoom[1:]), zoom)
            for x in sm.walk(root):
                if x['tag'] == 'svg' and x is not root:
                    e = els[id(x)]
                    e.current_scale = 9
                    e.current_translate = 5, 5
                    m.eq('zoom-inner', (e.current_scale, tuple(e.current_translate)), (1, (0, 0)), sm.xml(root))
        elif k < 0.7 and n['tag'] != 'svg':
            n['a']['transform'] = sg.transform(rng)
            if rng.random() < 0.5:
                el.set('transform', n['a']['transform'])
            else:
                from svgpy import SVGTransformList
                el.transform = SVGTransformList.parse(n['a']['transform'])
                n['a']['transform'] = el.get('transform')
        elif win is not None and rng.random() < 0.5:
            model.window = (rng.choice([700, 512]), rng.choice([300, 512]))
            win.inner_width, win.inner_height = model.window
        elif n['tag'] == 'svg' and n['a'].get('viewBox'):
            n['a']['viewBox'] = sg.viewbox(rng)
            el.set('viewBox', n['a']['viewBox'])
        check(m, rng, model, root, els, zoom, 'changed')
    if win is None and zoom != (1, 0, 0):
        # only the outermost svg zooms
        outer = build('<svg xmlns="%s"/>' % sm.SVG)
        outer.append_child(el_root)
        m.eq('zoom-moved', (el_root.current_scale, tuple(el_root.current_translate)), (1, (0, 0)), sm.xml(root))
    m.sample({'svg': sm.xml(root)[:700]})


def aspect(m, rng):
    """Texts of preserveAspectRatio, and the way back."""
    for t in sg.ALIGNS:
        for s in ('', ' meet', ' slice', '  slice', '\tmeet'):
            p = P(t + s)
            m.eq('aspect', p.align, getattr(P, 'SVG_PRESERVEASPECTRATIO_' + t.upper()), t + s)
            out = p.tostring()
            q = P(out)
            m.check('aspect', q == p or t == 'none', (t, s, out))
            want = 'none' if t == 'none' else t + ' ' + (s.strip() or 'meet')
            if out != want:
                if t == 'xMinYMid' and out.lower() == want.lower():
                    m.finding('xminymid-text', (want, out))
                else:
                    m.fail('aspect', (want, out))
    for t in ('', 'foo', 'xMidYMid foo', 'XMIDYMID meet'):
        p = P(t)
        m.eq('aspect', (p.align, p.meet_or_slice), (P.SVG_PRESERVEASPECTRATIO_XMIDYMID, P.SVG_MEETORSLICE_MEET), t)


def percentages(m, rng):
    """The recorded finding: percentages of a viewport's size do not refer to the parent's viewBox."""
    r = build('<svg xmlns="%s" width="200" height="200" viewBox="0 0 100 50"><svg width="50%%" height="50%%"/>'
              '<svg/></svg>' % sm.SVG)
    got = [[x.value() for x in e.get_viewport_size()[2:]] for e in r]
    for g, want, legacy in zip(got, ([50, 25], [100, 50]), ([100, 100], [200, 200])):
        if g == legacy:
            m.finding('percentage-of-viewbox', (g, want))
        else:
            m.eq('viewport', g, want, 'nested')


def detached(m, rng):
    """Elements outside an svg have the identity as their matrices."""
    p = SVGParser()
    for tag in ('g', 'rect', 'path'):
        e = p.create_element_ns(sm.SVG, tag)
        e.set('transform', 'scale(2)')
        m.check('owner', e.owner_svg_element is None and e.viewport_element is None, tag)
        m.check('detached', e.get_ctm().isidentity and e.get_screen_ctm().isidentity, tag)
    for vb in ('', '1 2 3', 'none', '0 0 10 10 10'):
        r = build('<svg xmlns="%s" width="10" height="10" viewBox="%s"/>' % (sm.SVG, vb))
        m.eq('viewbox', r.view_box, None, vb)
        m.check('viewbox-transform', r.get_viewport_transformation_matrix().isidentity, vb)


if __name__ == '__main__':
    vf.main(vf.Spec(
        'S02', case, quick=1500, thorough=100000, fixed=[aspect, percentages, detached],
        rule='nested svg/g trees with every unit, alignment and transform, in windows of several sizes; '
             'zoom, transforms, viewBoxes and the window changed and read again',
        required=['viewport', 'viewbox-transform', 'viewbox', 'aspect', 'ctm', 'screen-ctm', 'zoom', 'zoom-inner', 'owner'],
        anchors=['svgpy/base.py', 'svgpy/element.py', 'svgpy/core.py'],
        assumptions=['viewBox sizes are positive', 'matrices may differ by 1e-8 relative to their largest entry']))
