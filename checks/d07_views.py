"""D07: what elements tell of their place, text and attributes, against a model tree."""
import vf

SVG = 'http://www.w3.org/2000/svg'
HTML = 'http://www.w3.org/1999/xhtml'
XLINK = 'http://www.w3.org/1999/xlink'
CONTAIN = ['svg', 'svg', 'svg', 'g', 'g', 'symbol', 'symbol', 'defs', 'a', 'foreignObject', 'marker', 'pattern']
LEAF = ['rect', 'polygon', 'polyline', 'style', 'use', 'image', 'script', 'view', 'title', 'desc']
HTAGS = ['div', 'link', 'link', 'video', 'p']
WORDS = ['a', 'bc', 'd e', 'x', '1', '\u00e9', 'f-g', ' h', '']

REFLECT = {
    'link': {'as_': ('as', ''), 'cross_origin': ('crossorigin', None), 'href': ('href', ''), 'hreflang': ('hreflang', ''),
             'integrity': ('integrity', ''), 'media': ('media', ''), 'referrer_policy': ('referrerpolicy', ''),
             'rel': ('rel', ''), 'type': ('type', ''), 'lang': ('lang', ''), 'title': ('title', ''), 'id': ('id', ''),
             'class_name': ('class', '')},
    'style': {'media': ('media', 'all'), 'title': ('title', None), 'type': ('type', 'text/css'), 'id': ('id', ''),
              'class_name': ('class', '')},
    'div': {'lang': ('lang', ''), 'title': ('title', ''), 'id': ('id', ''), 'class_name': ('class', '')},
    'g': {'id': ('id', ''), 'class_name': ('class', '')},
}
REFLECT['video'] = REFLECT['p'] = REFLECT['div']
ALIGN = ['none'] + ['x%sY%s' % (x, y) for y in ('Min', 'Mid', 'Max') for x in ('Min', 'Mid', 'Max')]
FIT = {'svg', 'symbol', 'marker', 'pattern', 'view'}
POINTS = {'polygon', 'polyline'}
URI = {'a', 'use', 'script', 'pattern'}


class N:
    def __init__(self, tag, ns, real):
        self.tag, self.ns, self.real = tag, ns, real
        self.parent, self.kids, self.attr = None, [], {}
        self.scale, self.translate = 1, (0, 0)

    def up(self):
        e = self
        while e is not None:
            yield e
            e = e.parent


def number(rng):
    return rng.choice([rng.randint(-99, 99), rng.randint(-9999, 9999) / 100, rng.randint(-9, 9) / 1000, 0,
                       rng.randint(1, 9) * 10 ** rng.randint(3, 6)])


def spell(rng, v):
    s = repr(v)
    if rng.random() < .2 and s.startswith('0.'):
        s = s[1:]
    if rng.random() < .15:
        s = '%se%s' % (repr(v), rng.choice(['0', '+0', '-0'])) if 'e' not in s else s
    elif rng.random() < .1 and not s.startswith('-'):
        s = '+' + s
    return s


def join(rng, numbers, loose):
    """Numbers as a list in SVG: white space, commas, or nothing where a sign or point begins the next."""
    out = ''
    for k, s in enumerate(numbers):
        if k:
            if loose and s[0] in '+-' and rng.random() < .5:
                pass
            elif loose and s[0] == '.' and ('.' in numbers[k - 1] and 'e' not in numbers[k - 1]) and rng.random() < .5:
                pass
            else:
                out += rng.choice([' ', ',', ', ', ' , ', '\n', '  ', '\t'])
        out += s
    return rng.choice(['', ' ', '\n ']) + out + rng.choice(['', ' '])


def make(rng, doc, nodes, depth, parent):
    r = rng.random()
    if depth and r < .6:
        tag, ns = rng.choice(CONTAIN), SVG
    elif r < .8:
        tag, ns = rng.choice(LEAF), SVG
    else:
        tag, ns = rng.choice(HTAGS), HTML
    n = N(tag, ns, doc.create_element_ns(ns, tag))
    nodes.append(n)
    if parent is not None:
        n.parent = parent
        parent.kids.append(n)
        parent.real.append_child(n.real)
    if depth and (tag in CONTAIN or tag == 'div'):
        for _ in range(rng.randint(0, 4)):
            make(rng, doc, nodes, depth - 1, n)
    return n


def text_tree(rng, doc, m):
    """A text element, built and read, with the text it has."""
    parts = []

    def fill(e, depth):
        t = rng.choice(WORDS)
        e.text = t
        parts.append(t)
        for _ in range(rng.randint(0, 3)):
            r = rng.random()
            if depth and r < .5:
                c = doc.create_element_ns(SVG, 'tspan')
                e.append_child(c)
                fill(c, depth - 1)
            elif r < .75:
                c = doc.create_comment('no')
                e.append_child(c)
            else:
                c = doc.create_processing_instruction('no', 'no')
                e.append_child(c)
            t = rng.choice(WORDS)
            c.tail = t
            parts.append(t)
    top = doc.create_element_ns(SVG, rng.choice(['text', 'text', 'tspan']))
    fill(top, 3)
    m.eq('text_content', top.text_content, ''.join(parts), lambda: top.tostring())
    top.tail = 'tail' if top.getparent() is not None else None
    new = rng.choice(WORDS)
    top.text_content = new
    m.eq('text_content.set', (top.text_content or '', len(top), top.text or ''), (new, 0, new), new)
    for tag in ('title', 'desc', 'metadata'):
        e = doc.create_element_ns(SVG, tag)
        new = rng.choice(WORDS[:-1])
        e.text_content = new
        m.eq('text_content.set', (e.text_content, e.text), (new, new), new)
    m.state('text', len(parts))


def place(m, n, log):
    """Every statement about the place of n among svg and symbol elements."""
    svgs = [e for e in n.up() if e.tag == 'svg']
    ports = [e for e in n.up() if e.tag in ('svg', 'symbol')]
    outer = svgs and svgs[-1] is n
    e = n.real
    got = (e.get_nearest_svg_element(), e.get_farthest_svg_element(), e.get_nearest_viewport_element(),
           e.get_farthest_viewport_element())
    want = [x[0].real if x else None for x in (svgs, svgs[::-1], ports, ports[::-1])]
    for k, (g, w) in enumerate(zip(got, want)):
        m.check('nearest', g is w, (k, n.tag, log))
    w = [s for s in svgs if s is not n]
    m.check('owner', e.owner_svg_element is (w[0].real if w and not outer else None), (n.tag, log))
    w = [s for s in ports if s is not n]
    m.check('viewport', e.viewport_element is (w[0].real if w and not outer else None), (n.tag, log))
    if n.tag == 'svg':
        m.eq('scale', (e.current_scale, e.current_translate),
             (n.scale, n.translate) if outer else (1, (0, 0)), (outer, log))
    box = next(((p, p.box) for p in ports if getattr(p, 'box', None)), None)
    got = e.get_view_box()
    if box is None:
        m.check('view-box', got is None, (n.tag, got, log))
    else:
        m.eq('view-box', [x.value() for x in got[:4]], box[1], (n.tag, log))
        m.eq('view-box.par', (got[4].align, got[4].meet_or_slice), getattr(box[0], 'par', (6, 1)), (n.tag, log))
    near = ports[0] if ports else None
    got = e.get_view_box(recursive=False)
    m.check('view-box.near', (got is None) == (not getattr(near, 'box', None)), (n.tag, log))
    m.state('place', n.tag, tuple(x.tag for x in n.up())[1:5])


def change(m, rng, n, log):
    e = n.real
    ops = []
    if n.tag in REFLECT or n.ns == SVG:
        ops += ['reflect'] * 3
    if n.tag in FIT:
        ops += ['box', 'par'] * 2
    if n.tag in ('svg', 'view'):
        ops.append('zoom')
    if n.tag == 'svg':
        ops.append('scale')
    if n.tag in POINTS:
        ops += ['points'] * 4
    if n.tag in URI:
        ops += ['uri'] * 3
    if not ops:
        return
    op = rng.choice(ops)
    log.append((op, n.tag))
    if op == 'reflect':
        table = REFLECT.get(n.tag, REFLECT['g'])
        prop = rng.choice(list(table))
        attr, default = table[prop]
        value = rng.choice(WORDS[:-1])
        how = rng.randrange(3)
        if how == 0:
            setattr(e, prop, value)
            n.attr[attr] = value
        elif how == 1:
            e.set_attribute(attr, value)
            n.attr[attr] = value
        elif attr in n.attr:
            e.remove_attribute(attr)
            del n.attr[attr]
        for p, (a, d) in table.items():
            m.eq('reflect', getattr(e, p), n.attr.get(a, d), (n.tag, p, log))
            m.eq('reflect.attr', e.get_attribute(a), n.attr.get(a), (n.tag, p, log))
    elif op == 'box':
        numbers = [number(rng), number(rng), abs(number(rng)), abs(number(rng))]
        if rng.random() < .15:
            e.remove_attribute('viewBox')
            n.box = None
        else:
            text = join(rng, [spell(rng, v) for v in numbers], False)
            e.set_attribute('viewBox', text)
            n.box = numbers
        got = e.view_box
        m.check('view_box', (got is None) == (n.box is None) and (got is None or [x.value() for x in got] == numbers),
                lambda: (e.get_attribute('viewBox'), got))
    elif op == 'par':
        k = rng.randrange(len(ALIGN))
        ms = rng.choice(['', ' meet', ' slice', '  slice '])
        if rng.random() < .15:
            e.remove_attribute('preserveAspectRatio')
            n.par = (6, 1)
        else:
            e.set_attribute('preserveAspectRatio', rng.choice(['', ' ']) + ALIGN[k] + ms)
            n.par = (k + 1, 2 if 'slice' in ms else 1)
        par = e.preserve_aspect_ratio
        m.eq('par', (par.align, par.meet_or_slice), n.par, lambda: e.get_attribute('preserveAspectRatio'))
        m.check('par.equal', par == e.preserve_aspect_ratio and type(par)(par.tostring()) == par
                or par.align == 1, lambda: par.tostring())
        m.check('par.text', par.tostring().lower() == (ALIGN[n.par[0] - 1] + ('' if n.par[0] == 1 else [' meet', ' slice'][n.par[1] - 1])).lower(),
                lambda: (par.tostring(), n.par))
        other = type(par)(rng.choice(ALIGN) + rng.choice([' meet', ' slice']))
        m.eq('par.equal', par == other, (par.align, par.meet_or_slice) == (other.align, other.meet_or_slice), log)
    elif op == 'zoom':
        how = rng.randrange(4)
        if how == 0:
            e.remove_attribute('zoomAndPan')
            want = 1
        elif how == 1:
            v = rng.choice(['disable', 'magnify', 'x'])
            e.set_attribute('zoomAndPan', v)
            want = {'disable': 1, 'magnify': 2}.get(v, 0)
        elif how == 2:
            want = rng.choice([1, 2])
            e.zoom_and_pan = want
            m.eq('zoom', e.get_attribute('zoomAndPan'), [None, 'disable', 'magnify'][want], log)
        else:
            before = e.get_attribute('zoomAndPan')
            want = e.zoom_and_pan
            e.zoom_and_pan = rng.choice([0, 3, -1])
            m.eq('zoom', e.get_attribute('zoomAndPan'), before, log)
        m.eq('zoom', e.zoom_and_pan, want, log)
    elif op == 'scale':
        outer = not any(x.tag == 'svg' for x in n.up() if x is not n)
        v, t = rng.choice([2, .5, 3]), (rng.randint(-9, 9), rng.randint(1, 9))
        if rng.random() < .5:
            e.current_scale = v
            n.scale = v if outer else n.scale
        else:
            e.current_translate = t
            n.translate = t if outer else n.translate
    elif op == 'points':
        pts = [(number(rng), number(rng)) for _ in range(rng.randint(0, 6))]
        how = rng.randrange(3)
        flat = [v for p in pts for v in p]
        if how == 0 and pts:
            e.points = pts
        elif how == 1:
            e.set_attribute('points', join(rng, [spell(rng, v) for v in flat], True))
        elif flat:
            e.set_attribute('points', join(rng, [spell(rng, v) for v in flat + [7]], True))
            m.eq('points.odd', e.points, [], lambda: e.get_attribute('points'))
            return
        else:
            e.remove_attribute('points')
        m.eq('points', e.points if flat or how else [], [(float(x), float(y)) for x, y in pts] if flat or how else [],
             lambda: e.get_attribute('points'))
        if how == 0 and pts:
            text = e.get_attribute('points').replace(',', ' ').split()
            m.eq('points.text', [float(x) for x in text], [float(x) for x in flat], text)
    elif op == 'uri':
        for _ in range(2):
            v = rng.choice(['#a', '#b c', 'x.svg#d', 'http://h/i', ''])
            name = rng.choice(['href', 'x'])
            if rng.random() < .25:
                if name == 'href':
                    e.remove_attribute('href')
                else:
                    e.remove_attribute_ns(XLINK, 'href')
                n.attr.pop(name, None)
            elif v:
                if name == 'href':
                    e.set_attribute('href', v)
                else:
                    e.set_attribute_ns(XLINK, 'xlink:href', v)
                n.attr[name] = v
            m.eq('href', e.href, n.attr.get('href') or n.attr.get('x') or '', (n.tag, log))


def case(m, rng, i):
    from svgpy.window import SVGDOMImplementation
    doc = SVGDOMImplementation().create_svg_document()
    text_tree(rng, doc, m)
    nodes = []
    tops = []
    for _ in range(rng.randint(1, 2)):
        tops.append(make(rng, doc, nodes, rng.randint(2, 5), None))
    for n in nodes:
        if n.tag == 'use':
            pass
    log = []
    for step in range(rng.randint(3, 12)):
        r = rng.random()
        n = rng.choice(nodes)
        if r < .25 and n.parent is not None:
            to = rng.choice(nodes)
            if to.tag in CONTAIN and n not in list(to.up()):
                log.append(('move', n.tag, to.tag))
                n.parent.kids.remove(n)
                to.kids.append(n)
                n.parent = to
                to.real.append_child(n.real)
        elif r < .32 and n.parent is not None:
            log.append(('remove', n.tag))
            n.parent.real.remove_child(n.real)
            n.parent.kids.remove(n)
            n.parent = None
        else:
            change(m, rng, n, log)
        for e in rng.sample(nodes, min(5, len(nodes))):
            if e.ns == SVG:
                place(m, e, log)


SPEC = vf.Spec(
    'D07', case, quick=16000, thorough=400000,
    rule='a state is a kind of element with its nearest four ancestors, or a text of some number of pieces',
    required=['nearest', 'owner', 'viewport', 'scale', 'view-box', 'view-box.par', 'reflect', 'view_box', 'par', 'par.text',
              'zoom', 'points', 'points.odd', 'points.text', 'href', 'text_content', 'text_content.set'],
    anchors=['svgpy/base.py', 'svgpy/element.py', 'svgpy/dom.py'])

if __name__ == '__main__':
    vf.main(SPEC)
