"""C08: computed font sizes, weights, line heights, families and stroke widths."""
import io
import math

import vf
import svgmodel as sm
import svggen as sg
from gen import num, pos
from svgpy import SVGParser
from svgpy.core import Font

SIZES = {'xx-small': 10, 'x-small': 10, 'small': 13, 'medium': 16, 'large': 18, 'x-large': 24, 'xx-large': 32}
ABS = {'': 1, 'px': 1, 'in': 96, 'cm': 96 / 2.54, 'mm': 96 / 25.4, 'pt': 4 / 3, 'pc': 16, 'q': 96 / 101.6}
PROPS = ('font-size', 'font-weight', 'line-height', 'font-style', 'font-family', 'font-stretch')
EXTRA = {'font-size-adjust': ['none', '0.5', '0.45', '1', '1.25'], 'font-kerning': ['auto', 'normal', 'none'],
         'font-language-override': ['normal', '"TRK"', '"SRB"'],
         'font-synthesis': ['none', 'weight', 'style', 'weight style', 'style weight', 'none weight', 'style none']}
RESET = {'font-size-adjust': 'none', 'font-kerning': 'auto', 'font-language-override': 'normal'}
ALL = PROPS + tuple(EXTRA)
OTHERS = ALL + ('stroke-width', 'inline-size', 'writing-mode', 'style')
INITIAL = {'font-size': 'medium', 'font-weight': 'normal', 'line-height': 'normal', 'font-style': 'normal',
           'font-family': None, 'font-stretch': 'normal', 'font-synthesis': 'weight style'}
INITIAL.update(RESET)
FAMILIES = ['serif', 'Arial', 'monospace', 'DejaVu Sans', 'Times New Roman', 'X1', 'fantasy-2', 'sans-serif']


def bolder(w):
    return 400 if w < 400 else 700 if w < 600 else 900


def lighter(w):
    return 100 if w < 600 else 400 if w < 800 else 700


class Model(object):
    def __init__(self, root, window=(1280, 720)):
        self.root = root
        self.svg = sm.Model(root, window)
        self.memo = {}

    def winner(self, n, prop):
        """The declaration of prop that applies on n, or None."""
        best = None
        for source in ('attr', 'sheet', 'style'):
            d = n['decl'].get(source, {})
            if prop in d:
                best = d[prop]
        return None if best == 'inherit' else best

    def origin(self, n, prop):
        """(value, node that declares it)."""
        while n is not None:
            v = self.winner(n, prop)
            if v is not None:
                return v, n
            n = n['up']
        return INITIAL[prop], None

    def up(self, n, prop):
        return self.computed(n['up'], prop) if n['up'] is not None else None

    def size(self, n):
        """The computed font size of n (None: the initial one)."""
        if n is None:
            return 16.0
        k = id(n)
        if k in self.memo:
            return self.memo[k]
        v = self.winner(n, 'font-size')
        if v is None:
            px = self.size(n['up'])
        elif v in SIZES:
            px = SIZES[v]
        elif v in ('larger', 'smaller'):
            px = self.size(n['up'])
            px = px * 1.2 if v == 'larger' else px / 1.2
        else:
            px = self.length(v, n, self.size(n['up']), self.size(self.root) if n is not self.root else 16.0)
        px = max(px, 10.0)
        self.memo[k] = px
        return px

    def length(self, text, n, em, rem, percent=None):
        x, u = sm.split(text)
        if u in ABS:
            return x * ABS[u]
        if u == 'em':
            return x * em
        if u == 'rem':
            return x * rem
        if u == '%' and percent is None:
            return x * em / 100
        w, h = self.svg.base(n)
        if u == '%':
            return x / 100 * (w if percent == sm.H else h if percent == sm.V else math.sqrt((w * w + h * h) / 2))
        return x / 100 * {'vw': w, 'vh': h, 'vmin': min(w, h), 'vmax': max(w, h)}[u]

    def weight(self, n):
        if n is None:
            return 400
        v = self.winner(n, 'font-weight')
        if v is None:
            return self.weight(n['up'])
        if v == 'bolder':
            return bolder(self.weight(n['up']))
        if v == 'lighter':
            return lighter(self.weight(n['up']))
        return {'normal': 400, 'bold': 700}.get(v) or int(v)

    def line(self, n):
        v, at = self.origin(n, 'line-height')
        if v == 'normal':
            return 1.2 * self.size(n)
        x, u = sm.split(v)
        if u == '':
            return x * self.size(n)
        return self.length(v, at, self.size(at), self.size(self.root))


def value(rng, prop, root):
    r = rng.random()
    if r < 0.06:
        return 'inherit'
    if prop == 'font-size':
        k = rng.randrange(6)
        if k == 0:
            return rng.choice(list(SIZES))
        if k == 1:
            return rng.choice(['larger', 'smaller'])
        if k == 2:
            return sg.fmt(rng.choice([0.8, 1.5, 2, 1, 1.25])) + rng.choice(['em', 'em', 'rem'])
        if k == 3:
            return rng.choice(['80%', '150%', '200%', '100%', '62.5%'])
        if k == 4 and not root:
            return sg.fmt(rng.uniform(1, 8)) + rng.choice(['vw', 'vh', 'vmin', 'vmax'])
        u = rng.choice(list(ABS))
        return sg.fmt(rng.uniform(8, 60) / ABS[u]) + u
    if prop == 'font-weight':
        return rng.choice(['normal', 'bold', 'bolder', 'lighter', 'bolder', 'lighter', '100', '200', '300', '400', '500', '600',
                           '700', '800', '900'])
    if prop == 'line-height':
        k = rng.randrange(5)
        if k == 0:
            return 'normal'
        if k == 1:
            return sg.fmt(rng.uniform(0.5, 3))
        if k == 2:
            return sg.fmt(rng.uniform(50, 250)) + '%'
        if k == 3:
            return sg.fmt(rng.uniform(0.5, 3)) + rng.choice(['em', 'rem'])
        u = rng.choice(list(ABS)[1:])
        return sg.fmt(rng.uniform(8, 60) / ABS[u]) + u
    if prop == 'font-style':
        return rng.choice(['normal', 'italic', 'oblique'])
    if prop in EXTRA:
        return rng.choice(EXTRA[prop])
    if prop == 'font-stretch':
        return rng.choice(['normal', 'condensed', 'expanded', 'ultra-condensed', 'semi-expanded'])
    return None


def families(rng):
    """(text, names)."""
    names = rng.sample(FAMILIES, rng.randint(1, 4))
    parts = []
    for x in names:
        q = rng.choice(['', '"', "'"])
        parts.append(q + x + q)
    return rng.choice([', ', ',', ' , ']).join(parts), names


def font(rng, root):
    """A font shorthand: (text, declarations)."""
    out = dict(INITIAL)
    del out['font-synthesis']     # font does not set it
    head = []
    for p in rng.sample(['font-style', 'font-weight', 'font-stretch'], rng.randint(0, 3)):
        v = value(rng, p, root)
        if v == 'inherit':
            continue
        out[p] = v
        head.append(v)
    rng.shuffle(head)
    s = 'inherit'
    while s == 'inherit' or s[-1].isdigit():
        s = value(rng, 'font-size', root)
    out['font-size'] = s
    if rng.random() < 0.5:
        h = 'inherit'
        while h == 'inherit':
            h = value(rng, 'line-height', root)
        out['line-height'] = h
        s += '/' + h
    t, names = families(rng)
    out['font-family'] = names
    return ' '.join(head + [s, t]), out


def declare(rng, n):
    """Random declarations on n: each property in one of the sources."""
    root = n['up'] is None
    n['decl'] = {}
    n['text'] = {'attr': {}, 'sheet': {}, 'style': {}}
    n.pop('width', None)
    n.pop('inline', None)
    if rng.random() < 0.2:
        n['inline'] = sg.length(rng, pos(rng))
        n['text']['attr']['inline-size'] = n['inline']
        if rng.random() < 0.5:
            n['text']['attr']['writing-mode'] = rng.choice(['horizontal-tb', 'vertical-rl', 'vertical-lr', 'lr-tb', 'lr', 'rl', 'rl-tb', 'tb', 'tb-rl'])
    if rng.random() < 0.2:
        t, d = font(rng, root)
        s = rng.choice(['sheet', 'style'])
        n['decl'][s] = d
        n['text'][s]['font'] = t
        if rng.random() < 0.5:
            return
    for p in ALL:
        while rng.random() < (0.55 if p == 'font-size' else 0.3 if p in PROPS else 0.12):
            s = rng.choice(['attr', 'attr', 'style', 'sheet'])
            if p == 'font-synthesis' and s == 'sheet':
                continue         # a shorthand in sheets
            if p == 'font-family':
                t, v = families(rng)
            else:
                t = v = value(rng, p, root)
                if s != 'attr' and p == 'font-size' and sm.split(v if v[0].isdigit() else '1x')[1] == '':
                    t = v = v + 'px'
            if v == 'inherit' and 'font' in n['text'][s]:
                continue
            n['decl'].setdefault(s, {})[p] = v
            n['text'][s][p] = t
    if rng.random() < 0.1:
        # a shorthand after longhands
        t, d = font(rng, root)
        s = rng.choice(['sheet', 'style'])
        n['decl'].setdefault(s, {}).update(d)
        n['text'][s].pop('font', None)
        n['text'][s]['font'] = t
    if rng.random() < 0.5:
        n['width'] = sg.fmt(rng.uniform(0.1, 9)) + rng.choice(['', 'px', 'mm', 'em', 'rem', '%', 'vw'])
        n['text']['attr']['stroke-width'] = n['width']


def apply(n):
    """The texts of n's declarations as svgmodel attributes."""
    a = n['a']
    for p in OTHERS:
        a.pop(p, None)
    a.update(n['text']['attr'])
    if n['text']['style']:
        a['style'] = ';'.join('%s: %s' % kv for kv in n['text']['style'].items())


def sheet(root):
    out = []
    for n in sm.walk(root):
        if n['text']['sheet']:
            out.append('#%s { %s }' % (n['a']['id'], '; '.join('%s: %s' % kv for kv in n['text']['sheet'].items())))
    return '\n'.join(out)


def tree(rng):
    root = sm.node('svg')
    root['a'].update(width=str(rng.randint(50, 900)), height=str(rng.randint(50, 900)))
    if rng.random() < 0.4:
        root['a']['viewBox'] = sg.viewbox(rng)
    nodes = [root]
    for k in range(rng.randint(2, 7)):
        n = sm.node(rng.choice(['g', 'g', 'text', 'rect']))
        sm.add(rng.choice([x for x in nodes[-3:] if x['tag'] in ('svg', 'g')] or [root]), n)
        nodes.append(n)
    for k, n in enumerate(nodes):
        n['a']['id'] = 'n%d' % k
        declare(rng, n)
        apply(n)
    return root


def build(root):
    text = sm.xml(root)
    css = sheet(root)
    if css:
        cut = text.index('>')
        if text[cut - 1] == '/':
            text = text[:cut - 1] + '></svg>'
            cut -= 1
        text = text[:cut + 1] + '<style>' + css + '</style>' + text[cut + 1:]
    return SVGParser().parse(io.StringIO(text)).getroot(), text


def check(m, root, el_root, text, what):
    model = Model(root)
    fonts = any('font' in n['text']['sheet'] for n in sm.walk(root))
    for n in sm.walk(root):
        el = el_root if n is root else el_root.get_element_by_id(n['a']['id'])
        s = el.get_computed_style()
        ctx = lambda: (n['a']['id'], what, text, [(x['a']['id'], x['text']) for x in sm.walk(root)])
        m.event(n['tag'], *sorted(k + '/' + p for k, d in n['decl'].items() for p in d))
        v = model.size(n)
        m.close('font-size', s['font-size'], v, 1e-6 * v, ctx)
        m.eq('font-weight', s['font-weight'], model.weight(n), ctx)
        v = model.line(n)
        m.close('line-height', s['line-height'], v, 1e-6 * v, ctx)
        for p in ('font-style', 'font-stretch'):
            m.eq(p, s[p], model.origin(n, p)[0], ctx)
        f = model.origin(n, 'font-family')[0]
        if f is not None:
            m.eq('font-family', s['font-family'], f, ctx)
        for p in EXTRA:
            if p in RESET and fonts:
                continue     # font in a sheet does not reset these (the unit tests pin it)
            v = model.origin(n, p)[0]
            if p == 'font-size-adjust' and v != 'none':
                v = float(v)
            elif p == 'font-synthesis':
                v = ['none'] if 'none' in v else v.split()
            m.eq(p, s[p], v, ctx)
        w, x = '1', n
        while x is not None:
            if 'width' in x:
                w = x['width']
                break
            x = x['up']
        if x is None or x is n or sm.split(w)[1] in ABS:
            v = model.length(w, n, model.size(n), model.size(root), percent='both')
            m.close('stroke-width', s['stroke-width'], v, 1e-6 * max(v, 1), ctx)
        if 'inline' in n:
            x, mode = n, None
            while x is not None and mode is None:
                mode, x = x['text']['attr'].get('writing-mode'), x['up']
            axis = sm.H if mode in (None, 'horizontal-tb', 'lr-tb', 'lr', 'rl', 'rl-tb') else sm.V
            v = model.length(n['inline'], n, model.size(n), model.size(root), percent=axis)
            m.close('inline-size', s['inline-size'], v, 1e-6 * max(v, 1), ctx)
        m.state(round(model.size(n), 1), model.weight(n))


def case(m, rng, i):
    root = tree(rng)
    el_root, text = build(root)
    check(m, root, el_root, text, 'new')
    for _ in range(rng.choice([0, 1, 2])):
        # new declarations for one element, without sheets
        n = rng.choice(list(sm.walk(root)))
        keep = n['text']['sheet'], n['decl'].get('sheet')
        declare(rng, n)
        n['text']['sheet'] = keep[0]
        n['decl'].pop('sheet', None)
        if keep[1]:
            n['decl']['sheet'] = keep[1]
        apply(n)
        el = el_root if n is root else el_root.get_element_by_id(n['a']['id'])
        for k in OTHERS:
            if k in n['a']:
                el.set(k, n['a'][k])
            elif k in el.attrib:
                del el.attrib[k]
        check(m, root, el_root, text, 'changed')
    m.sample({'svg': text[:800]})


if __name__ == '__main__':
    assert Font.default_font_size == 16
    vf.main(vf.Spec(
        'C08', case, quick=500, thorough=25000,
        rule='trees with font-size, font-weight, line-height, font-style, font-stretch, font-family and font in attributes, style '
             'attributes and sheets; declarations replaced afterwards',
        required=['font-size', 'font-weight', 'line-height', 'font-style', 'font-stretch', 'font-family', 'stroke-width', 'inline-size',
                  'font-size-adjust', 'font-kerning', 'font-language-override', 'font-synthesis'],
        anchors=['svgpy/core.py', 'svgpy/dom.py'],
        assumptions=['ex, cap, ch and ic depend on the installed fonts and are not generated',
                     'an inherited stroke-width in relative units is not compared']))
