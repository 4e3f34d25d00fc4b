"""C04: the computed style against a reference cascade (origin, importance, specificity, order, inheritance)."""
from urllib.parse import quote
import vf
import selmodel
from selmodel import SVG, complex_, specificity, split, tag
from svgpy.element import SVGParser
from svgpy.window import SVGDOMImplementation

TAGS = ['g', 'rect', 'text', 'a', 'path', 'foo', 'circle', 'g', 'tspan', 'defs', 'symbol', 'marker', 'title', 'linearGradient']
UA_NONE = {'defs', 'clipPath', 'mask', 'marker', 'desc', 'title', 'metadata', 'pattern', 'hatch', 'linearGradient',
           'radialGradient', 'script', 'style', 'symbol'}
IDS = ['i1', 'i2', 'i3', 'i4']
CLASSES = ['a', 'b', 'c', 'd-e']
ATTRS = {'data-k': ['v1', 'v2', 'v1 v2'], 'lang': ['en', 'en-GB']}
GEN = selmodel.Gen(['g', 'rect', 'text', 'svg', 'foo', 'a'], IDS, CLASSES, ATTRS, (None, None, None, SVG))
OTHER = 'urn:other'
GENNS = selmodel.Gen(['g', 'rect', 'text', 'svg', 'foo', 'a'], IDS, CLASSES, ATTRS, (None, None, SVG, SVG, OTHER))
INHERITED = {
    'fill': ['red', 'blue', 'none', 'url(#p)', '#123456'], 'stroke': ['green', 'none', 'rgb(1, 2, 3)'],
    'color': ['red', 'lime', '#fff'], 'fill-opacity': ['.5', '0.25', '1'], 'fill-rule': ['evenodd', 'nonzero'],
    'clip-rule': ['evenodd', 'nonzero'], 'stroke-linecap': ['round', 'square'], 'stroke-dasharray': ['1 2', '5'],
    'text-anchor': ['middle', 'end'], 'visibility': ['hidden', 'visible'], 'pointer-events': ['none', 'all'],
    'direction': ['rtl', 'ltr'], 'cursor': ['pointer', 'help'], 'marker-end': ['none', 'url(#m)'], 'marker-mid': ['none', 'url(#n)'],
    'marker-start': ['none', 'url(#o)'], 'letter-spacing': ['1px', '2px'],
    'writing-mode': ['vertical-rl', 'horizontal-tb'], 'stroke-miterlimit': ['8', '3'], 'paint-order': ['stroke', 'normal'],
    'font-kerning': ['none', 'normal'], 'font-style': ['italic', 'oblique'], 'shape-rendering': ['crispEdges']}
INITIAL = {
    'fill': 'black', 'stroke': 'none', 'color': 'black', 'fill-opacity': '1', 'fill-rule': 'nonzero', 'clip-rule': 'nonzero',
    'stroke-linecap': 'butt', 'stroke-dasharray': 'none', 'text-anchor': 'start', 'visibility': 'visible',
    'pointer-events': 'visiblePainted', 'direction': 'ltr', 'cursor': 'auto', 'marker-end': 'none', 'marker-mid': 'none', 'marker-start': 'none', 'letter-spacing': 'normal',
    'writing-mode': 'horizontal-tb', 'stroke-miterlimit': '4', 'paint-order': 'normal', 'font-kerning': 'auto',
    'font-style': 'normal', 'shape-rendering': 'auto'}
OWN = {'opacity': (['.5', '0', '0.75'], '1'), 'clip-path': (['url(#c)', 'none'], 'none'), 'stop-color': (['red', 'blue'], 'black'),
       'stop-opacity': (['.5'], '1'), 'flood-color': (['red', 'white'], 'black'), 'vector-effect': (['non-scaling-stroke'], 'none'),
       'filter': (['url(#f)'], 'none'), 'unicode-bidi': (['embed'], 'normal'),
       'alignment-baseline': (['middle'], 'baseline'), 'dominant-baseline': (['central'], 'auto')}
PROPS = sorted(INHERITED) + sorted(OWN)
MEDIA = [('', True), ('all', True), ('screen', True), ('print', False), ('(min-width: 1px)', True), ('(max-width: 1px)', False),
         ('print, screen', True), ('not screen', False)]


def value_of(rng, p):
    if p in OWN:
        return rng.choice(OWN[p][0])
    return 'inherit' if rng.random() < 0.08 else rng.choice(INHERITED[p])


def longhands(decls):
    for p, v, imp in decls:
        for q in (('marker-start', 'marker-mid', 'marker-end') if p == 'marker' else (p,)):
            yield q, v, imp


def norm(v):
    return v.replace('url("', 'url(').replace('")', ')') if isinstance(v, str) else v


class Sheet(object):
    """rules: list of (selectors, [(name, value, important)], applies)"""

    def __init__(self, rng, props):
        self.rng, self.props, self.prefixes, self.n, self.pool = rng, props, None, 0, []

    def hot(self):
        """A simple selector that matches an element of the tree."""
        rng = self.rng
        e = rng.choice(self.pool)
        ns, name = split(e.tag)
        kinds = [('type', '*', None), ('type', name, None), ('type', name, None)]
        if ns == SVG:
            kinds.append(('type', name, SVG))
        if e.get('id'):
            kinds += [('id', e.get('id'))] * 2
        for c in (e.get('class') or '').split():
            kinds += [('class', c)] * 2
        for k in sorted(ATTRS):
            if e.get(k):
                kinds.append(('attr', k, '=', e.get(k)))
        got = rng.sample(kinds, rng.choice([1, 1, 2]))
        types = [x for x in got if x[0] == 'type']
        return [types[:1] + [x for x in got if x[0] != 'type']]

    def declarations(self):
        rng = self.rng
        out = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            p = rng.choice(self.props)
            if p.startswith('marker-') and rng.random() < 0.5:
                p = 'marker'
                v = rng.choice(['none', 'url(#m)', 'url(#q)'])
            else:
                v = value_of(rng, p)
            out.append((p, v, rng.random() < 0.2))
        return out

    def decl_text(self, decls):
        rng = self.rng
        s = ''
        for k, (p, v, imp) in enumerate(decls):
            s += rng.choice(['', ' ', '/* c */ ']) + (p.upper() if rng.random() < 0.1 else p) + rng.choice([':', ': ', ' : ']) + v
            if imp:
                s += rng.choice(['!important', ' !important', ' ! IMPORTANT'])
            if k + 1 < len(decls) or rng.random() < 0.7:
                s += rng.choice([';', ' ;\n', ';;'])
        return s

    def rule(self, applies, out):
        rng = self.rng
        sels = [self.hot() if self.pool and rng.random() < 0.5 else (GENNS if self.prefixes else GEN).selector(rng)
                for _ in range(rng.choice([1, 1, 1, 2, 3, 4]))]
        decls = self.declarations()
        out.append((sels, decls, applies))
        return '%s {%s}\n' % (', '.join(selmodel.text_of(s, rng, self.prefixes) for s in sels), self.decl_text(decls))

    def text(self, applies, out, depth=0):
        rng = self.rng
        s = ''
        if depth == 0 and rng.random() < 0.25:
            media, ok = rng.choice(MEDIA)
            self.prefixes = None
            inner = self.rule(applies and ok, out)
            s += '@import url("data:text/css,%s") %s;\n' % (quote(inner), media)
        if depth == 0 and rng.random() < 0.4:
            # prefixes that no other sheet and no element declares
            self.n += 1
            self.prefixes = {SVG: ['s%d' % self.n, 'S-%d' % self.n, 'svg'][:rng.randint(1, 3)], OTHER: ['o%d' % self.n, 'x-%d' % self.n][:rng.randint(1, 2)]}
            for uri, ps in sorted(self.prefixes.items()):
                for q in ps:
                    s += '@namespace %s %s;\n' % (q, rng.choice(['url(%s)', 'url("%s")', '"%s"', "'%s'"]) % uri)
        elif depth == 0:
            self.prefixes = None
        for _ in range(rng.choice([1, 2, 2, 3, 4])):
            k = rng.random()
            if k < 0.75 or depth > 1:
                s += self.rule(applies, out)
            elif k < 0.95:
                media, ok = rng.choice(MEDIA)
                s += '@media %s {\n%s}\n' % (media, self.text(applies and ok, out, depth + 1))
            else:
                s += rng.choice(['/* nothing { } */', '@unknown x;', 'g:hover {fill: pink}', '::before {fill: pink}', '&&& {fill:pink}',
                                 'x|y {fill: pink}', 'g, x|y {fill: pink}'])
        return s


def walk(e):
    out = [e]
    for c in e:
        if tag(c) is not None:
            out += walk(c)
    return out


def case(m, rng, i):
    if i % 12 == 7:
        return fonts(m, rng)
    impl = SVGDOMImplementation()
    # an SVG document, or an orphan tree
    props = rng.sample(PROPS, rng.randint(2, 6))
    if rng.random() < 0.2:
        props = ['marker-end', 'marker-mid', 'marker-start']
    sheet = Sheet(rng, props)
    rules = []          # in the order of the cascade
    attached = rng.random() < 0.8
    doc = impl.create_document(None)
    maker = SVGParser()
    ns = SVG if rng.random() < 0.8 else None
    root = maker.create_element_ns(ns, 'svg')
    pool = [root]
    for k in range(rng.randint(2, 10)):
        p = rng.choice(pool[-3:])
        e = maker.create_element_ns(OTHER if rng.random() < 0.08 else ns, rng.choice(TAGS))
        p.append(e)
        pool.append(e)
    for e in pool:
        if rng.random() < 0.5:
            e.set('id', rng.choice(IDS))
        if rng.random() < 0.7:
            e.set('class', ' '.join(rng.sample(CLASSES, rng.randint(1, 2))))
        for k in sorted(ATTRS):
            if rng.random() < 0.2:
                e.set(k, rng.choice(ATTRS[k]))
    sheet.pool = pool
    inline = {}
    for e in pool:
        for p in props:
            if rng.random() < 0.25:
                e.set(p, value_of(rng, p))
        if rng.random() < 0.35:
            inline[e] = sheet.declarations()
            e.set('style', sheet.decl_text(inline[e]))
    # style elements anywhere; collected in document order afterwards
    sheets = {}
    for k in range(rng.randint(1, 3)):
        media, ok = rng.choice(MEDIA[:1] * 3 + MEDIA)
        if not attached and media not in ('', 'all'):
            ok = False
        out = []
        if rng.random() < 0.8:
            s = maker.create_element_ns(ns, 'style')
            ty = rng.choice(['text/css', None, 'text/plain']) if rng.random() < 0.3 else None
            if ty is not None:
                s.set('type', ty)
            applies = ok and ty in (None, '', 'text/css')
            t = sheet.text(applies, out)
            s.text = t
        else:
            s = maker.create_element_ns('http://www.w3.org/1999/xhtml', 'link')
            rel = rng.choice(['stylesheet', 'stylesheet', 'stylesheet x', 'alternate stylesheet', 'icon'])
            s.set('rel', rel)
            applies = ok and rel.startswith('stylesheet')
            s.set('href', 'data:text/css,' + quote(sheet.text(applies, out)))
        if media or rng.random() < 0.2:
            s.set('media', media)
        sheets[s] = out
        p = rng.choice(pool)
        p.insert(rng.randint(0, len(p)), s)
    if attached:
        doc.append(root)
        if rng.random() < 0.25:
            out = []
            media, ok = rng.choice(MEDIA)
            alt = rng.random() < 0.2
            t = sheet.text(ok and not alt, out)
            pi = doc.create_processing_instruction('xml-stylesheet', 'type="text/css" href="data:text/css,%s"%s%s' % (
                quote(t), ' media="%s"' % media if media else '', ' alternate="yes"' if alt else ''))
            doc.insert_before(pi, root)
            rules += out
    for e in walk(root):
        if e in sheets:
            rules += sheets[e]
    if not attached:
        # without a window no media query but all and the empty one applies: such rules were marked by their text
        pass
    nested_media = not attached
    everything = walk(root)
    m.event(len(everything), len(rules), attached)

    def cascaded(e):
        win = {}
        for n, v in e.attrib.items():
            if n in PROPS:
                win[n] = ((0, (0, 0, 0), 0), v)
        for order, (sels, decls, applies) in enumerate(rules):
            if not applies:
                continue
            hit = [specificity(s) for s in sels if complex_(s, e, root)]
            if not hit:
                continue
            m.saw('prefix', any(q[0] == 'type' and q[2] for t in sels for c in t if not isinstance(c, str) for q in c))
            for k, (p, v, imp) in enumerate(longhands(decls)):
                rank = (3 if imp else 1, max(hit), (order, k))
                if p not in win or (rank[0], rank[1], rank[2]) >= tuple3(win[p][0]):
                    win[p] = (rank, v)
        for k, (p, v, imp) in enumerate(longhands(inline.get(e, []))):
            rank = (4 if imp else 2, (0, 0, 0), (0, k))
            if p not in win or rank >= tuple3(win[p][0]):
                win[p] = (rank, v)
        return {p: v for p, (_, v) in win.items()}

    def tuple3(r):
        return r if isinstance(r[2], tuple) else (r[0], r[1], (-1, r[2]))
    if nested_media and any('@media' in (s.text or '') or '@import' in (s.text or '') or 'data:' in s.get('href', '')
                            for s in sheets):
        return          # an orphan tree has no window to evaluate media queries
    memo = {e: cascaded(e) for e in everything}
    for e in rng.sample(everything, min(len(everything), 4)):
        got = e.get_computed_style()
        ctx = None

        def detail():
            return (e.tag, e.get('id'), e.get('class'), doc.tostring().decode() if attached else root.tostring().decode())
        for p in props:
            if p in INHERITED:
                x = e
                while True:
                    v = memo[x].get(p)
                    if v is not None and v != 'inherit':
                        m.saw('own' if x is e else 'inherited')
                        break
                    x = x.getparent() if x is not root else None
                    if x is None:
                        v = INITIAL[p]
                        m.saw('initial')
                        break
                m.check('inherited-property', norm(got[p]) == norm(v), lambda: (p, got[p], v, detail()))
            else:
                v = memo[e].get(p, OWN[p][1])
                m.check('own-property', norm(got[p]) == norm(v), lambda: (p, got[p], v, detail()))
            m.state(p, v)
        x, none = e, False
        while x is not None:
            none = none or split(x.tag)[1] in UA_NONE
            x = x.getparent() if x is not root else None
        m.check('display', (got['display'] == 'none') == none, lambda: (got['display'], detail()))
    m.sample({'rules': len(rules), 'elements': len(everything), 'props': props})


def computed(sheet, attrs, outer=''):
    import io
    root = SVGParser().parse(io.StringIO(
        '<svg xmlns="%s" %s><style>%s</style><text id="t" %s/></svg>' % (SVG, outer, sheet, attrs))).getroot()
    return root.get_element_by_id('t').get_computed_style()


FONT0 = {'font-style': 'normal', 'font-variant-caps': 'normal', 'font-variant-position': 'normal', 'font-size': 16.0}


def font_decl(rng):
    k = rng.random()
    if k < 0.3:
        style, caps, size = rng.choice(['', 'italic', 'oblique']), rng.choice(['', 'small-caps']), rng.choice([12, 20, 33])
        return ('font', ' '.join(x for x in (style, caps, '%dpx' % size, 'serif') if x),
                {'font-style': style or 'normal', 'font-variant-caps': caps or 'normal', 'font-variant-position': 'normal', 'font-size': float(size)})
    if k < 0.55:
        v = rng.choice(['normal', 'none', 'small-caps', 'sub', 'super', 'small-caps sub', 'titling-caps', 'super unicase'])
        return ('font-variant', v, {
            'font-variant-caps': next((x for x in v.split() if 'cap' in x or x == 'unicase'), 'normal'),
            'font-variant-position': next((x for x in v.split() if x in ('sub', 'super')), 'normal')})
    p = rng.choice(sorted(FONT0))
    v = rng.choice({'font-style': ['normal', 'italic', 'oblique'], 'font-variant-caps': ['normal', 'small-caps', 'unicase'],
                    'font-variant-position': ['normal', 'sub', 'super'], 'font-size': ['12px', '40px']}[p])
    return (p, v, {p: float(v[:-2]) if p == 'font-size' else v})


def fonts(m, rng):
    """Shorthands and longhands of the fonts, one after the other: the last one counts."""
    model = dict(FONT0)
    levels = []
    for _ in range(3):
        levels.append([font_decl(rng) for _ in range(rng.choice([0, 1, 2, 3]))])
        for _, _, effect in levels[-1]:
            model.update(effect)
    outer, sheet, inline = ['; '.join('%s: %s' % d[:2] for d in level) for level in levels]
    st = computed('text {%s}' % sheet, 'style="%s"' % inline, 'style="%s"' % outer)
    m.event(outer, sheet, inline)
    for p in sorted(FONT0):
        m.eq('font-order', st[p], model[p], lambda: (p, outer, sheet, inline))
    m.state('fonts', tuple(d[0] for level in levels for d in level))


def shorthands(m, rng):
    for a in ('font="12px serif" font-family="Foo"', 'style="font:12px serif;font-family:Foo"',):
        st = computed('', a)
        m.eq('font-and-family', (st['font-family'], st['font-size']), (['Foo'], 12.0), a)
    st = computed('text {font-family: Foo; font: 12px serif}', 'font="20px Bar"')
    m.eq('font-and-family', (st['font-family'], st['font-size']), (['serif'], 12.0), 'sheet')
    st = computed('', 'font="12px serif"', 'font-family="Foo" font-size="20"')
    m.eq('font-and-family', (st['font-family'], st['font-size']), (['serif'], 12.0), 'inherited')
    for decl in ('marker: url(#m)', 'marker-end: url(#m); marker-start:url(#m); marker-mid: url(#m)'):
        st = computed('', 'style="%s"' % decl)
        m.eq('marker', [st['marker-' + k] for k in ('start', 'mid', 'end')], ['url(#m)'] * 3, decl)
        st = computed('', 'marker-mid="none"', 'style="%s"' % decl)
        m.eq('marker', [st['marker-' + k] for k in ('start', 'mid', 'end')], ['url(#m)', 'none', 'url(#m)'], decl)
    for name, value in (('overflow', 'hidden'), ('text-decoration', 'underline')):
        got = computed('text {%s: %s}' % (name, value), '')[name]
        if got != value:
            m.finding('shorthand-from-sheet', (name, value, got))
        m.eq('shorthand-inline', computed('', 'style="%s: %s"' % (name, value))[name], value)
        m.eq('shorthand-inline', computed('', '%s="%s"' % (name, value))[name], value)


if __name__ == '__main__':
    vf.main(vf.Spec(
        'C04', case, quick=4000, thorough=60000,
        rule='random trees with presentation attributes, style attributes and style sheets (style, link, xml-stylesheet, @import, '
             '@media) over 2-6 properties; the computed style of up to 4 elements',
        required=['prefix', 'font-order', 'inherited-property', 'own-property', 'display', 'own', 'inherited', 'initial'],
        fixed=[shorthands],
        anchors=['svgpy/style.py', 'svgpy/dom.py', 'svgpy/utils.py', 'svgpy/css/__init__.py'],
        assumptions=['properties whose computed value is a string; initial, unset and revert are not used',
                     'author importance against the user agent sheet is not exercised']))
