"""L01: SVGLength values, conversions, arithmetic, comparisons and texts."""
import copy
import math
from fractions import Fraction

import vf
import svgmodel as sm
import svggen as sg
from gen import num
import s01_shapes
from svgpy import Font, SVGDOMImplementation, SVGLength, Window
from svgpy import formatter

ABS = {None: 1.0, '': 1.0, 'px': 1.0, 'in': 96.0, 'cm': 96 / 2.54, 'mm': 96 / 25.4, 'q': 96 / 101.6, 'pt': 96 / 72, 'pc': 16.0}
RES = {'dppx': 1.0, 'dpi': 1 / 96, 'dpcm': 2.54 / 96}
FONT = ['em', 'rem', '%']
VIEW = ['vw', 'vh', 'vmin', 'vmax']
HALF = ['ex', 'cap', 'ch', 'ic']
LENGTHS = [u for u in ABS if u != ''] + FONT + VIEW
D = {None: None, 'h': SVGLength.DIRECTION_HORIZONTAL, 'v': SVGLength.DIRECTION_VERTICAL, 'o': SVGLength.DIRECTION_UNSPECIFIED}
TOL = 1e-9


def build(text, window):
    el = s01_shapes.build(text)
    win = Window(SVGDOMImplementation())
    win.document.replace_child(el, win.document.document_element)
    win.inner_width, win.inner_height = window
    KEEP[:] = KEEP[-8:] + [(win, el)]
    return el


KEEP = []


class Ctx(object):
    """What relative units mean: fs, root fs and the viewport's w and h."""

    def __init__(self, el=None, fs=16.0, rfs=16.0, w=100.0, h=100.0):
        self.el, self.fs, self.rfs, self.w, self.h = el, fs, rfs, w, h

    def factor(self, u, d):
        """The size of 1u in px (resolutions: in dppx)."""
        if u in ABS:
            return ABS[u]
        if u in RES:
            return RES[u]
        if u == 'em':
            return self.fs
        if u == 'rem':
            return self.rfs
        if u in HALF:
            return self.fs / 2
        if u == '%':
            return {None: self.fs, 'h': self.w, 'v': self.h, 'o': math.sqrt((self.w ** 2 + self.h ** 2) / 2)}[d] / 100
        return {'vw': self.w, 'vh': self.h, 'vmin': min(self.w, self.h), 'vmax': max(self.w, self.h)}[u] / 100


def context(rng):
    """A document and an element of it."""
    root = sm.node('svg')
    window = (rng.randint(50, 2000), rng.randint(50, 1500))
    sg.viewport_attrs(rng, root['a'], True, False)
    n = root
    for _ in range(rng.randint(0, 3)):
        k = sm.node(rng.choice(['g', 'svg', 'g']))
        if k['tag'] == 'svg':
            near = n
            while near['tag'] != 'svg':
                near = near['up']
            sg.viewport_attrs(rng, k['a'], False, sm.viewbox(near) is not None)
        if rng.random() < 0.5:
            k['a']['font-size'] = sg.font_size(rng)
        sm.add(n, k)
        n = k
    if rng.random() < 0.5:
        root['a']['font-size'] = sg.font_size(rng)
    leaf = sm.node('rect')
    if rng.random() < 0.3:
        leaf['a']['font-size'] = sg.font_size(rng)
    sm.add(n, leaf)
    n = leaf
    el = build(sm.xml(root), window)
    for _ in range(100):
        kids = list(el)
        if not kids:
            break
        el = kids[0]
    model = sm.Model(root, window)
    w, h = model.base(n)
    fs, rfs = model.font_size(n), model.font_size(root)
    return Ctx(el, fs, rfs, w, h), sm.xml(root)


class L(object):
    """Model: a number, a unit and a direction."""

    def __init__(self, c, x, u, d):
        self.c, self.x, self.u, self.d = c, x, u, d

    def px(self):
        return self.x * self.c.factor(self.u, self.d)

    def to(self, u, d='same'):
        """The number in another unit; d: the direction asked for."""
        d = self.d if d == 'same' or d is None else d
        return self.x * self.c.factor(self.u, d) / self.c.factor(u, d) if u != self.u else self.x

    def resolution(self):
        return self.u in RES


def same(m, name, real, want, ctx):
    m.eq(name + '-unit', real.unit, None if want.u == '' else want.u, ctx)
    m.close(name, real.value(real.unit), want.x, TOL * max(1.0, abs(want.x)), ctx)
    m.check(name + '-context', real.context is want.c.el, ctx)
    v = want.px()
    m.close(name + '-px', real.value(None if not want.resolution() else 'dppx'), v, TOL * max(1.0, abs(v)), ctx)


def number(rng):
    k = rng.randrange(8)
    if k == 0:
        return 0.0
    if k == 1:
        return float(rng.randint(-20, 20))
    if k == 2:
        return rng.choice([1e-5, 1e5, 0.1, 1 / 3, -1e-3])
    return round(num(rng), rng.randint(0, 6))


def spell(rng, x, u):
    t = repr(x) if x != int(x) or rng.random() < 0.3 else str(int(x))
    if 'e' not in t and rng.random() < 0.15:
        t += rng.choice(['e0', 'E+1', 'e-1', 'e2'])
    if t.startswith('0.') and len(t) > 2 and rng.random() < 0.3:
        t = t[1:]
    if not t.startswith('-') and rng.random() < 0.1:
        t = '+' + t
    n = float(t)
    if u:
        t += ''.join(rng.choice([ch.lower(), ch.upper()]) for ch in u) if rng.random() < 0.2 else u
    if rng.random() < 0.1:
        t = rng.choice([' ', '\n', '\t ']) + t + rng.choice([' ', '', '\n'])
    return t, n


def make(m, rng, c, u=0):
    if u == 0:
        pool = LENGTHS if c.el is not None else LENGTHS + HALF + list(RES)
        u = rng.choice(pool)
    d = rng.choice(list(D)) if u in ('%', None) or rng.random() < 0.2 else None
    x = number(rng)
    k = rng.randrange(4)
    kw = {} if d is None else {'direction': D[d]}
    if c.el is not None:
        kw['context'] = c.el
    if k == 0 and u:
        real = SVGLength(x, u, **kw)
        how = ('new', x, u, d)
    elif k == 1 and not u:
        real = SVGLength(x, **kw)
        how = ('number', x, d)
    elif k == 2 and u:
        real = SVGLength(**kw)
        real.new_value(x, u)
        how = ('new_value', x, u, d)
    else:
        t, x = spell(rng, x, u)
        real = SVGLength(t, **kw)
        how = ('text', t, d)
    want = L(c, x, u, d)
    same(m, 'parse', real, want, lambda: how)
    m.state(how[0], u, d)
    return real, want, how


def kinds(m, real, want, ctx):
    u = want.u
    m.eq('kind', (bool(real.isabsolute()), bool(real.isrelative()), bool(real.isresolution())),
         (u in ABS, u in FONT or u in VIEW or u in HALF, u in RES), ctx)


def values(m, rng, real, want, ctx):
    us = list(RES) if want.resolution() else LENGTHS + (HALF if want.c.el is None else [])
    for u in rng.sample(us, min(len(us), 3)):
        d = rng.choice(['same', None, 'h', 'v', 'o'])
        w = want.to(u, d)
        kw = {} if d in ('same',) else {'direction': D[d]}
        got = real.value(u, **kw)
        m.close('value', got, w, TOL * max(1.0, abs(w)), lambda: (ctx(), u, d))
        t = real.tostring(u, **kw)
        if u is None:
            # (without a unit: in the length's own)
            got = real.value(want.u, **kw)
        tu = want.u if u is None else u
        m.eq('text', (t[len(t.rstrip('abcdefghijklmnopqrstuvwxyz%')):] or None), tu, lambda: (ctx(), t, u, d))
        m.close('text', float(t[:len(t) - len(tu or '')]), got, 0.5000001e-6, lambda: (ctx(), t, u, d))
        if d == 'same':
            k = copy.copy(real)
            k.convert(u)
            back = L(want.c, w, u, want.d)
            same(m, 'convert', k, back, lambda: (ctx(), u))
            k.convert(want.u)
            same(m, 'convert-back', k, want, lambda: (ctx(), u))
    wrong = rng.choice(LENGTHS[1:] if want.resolution() else list(RES))
    m.raises('incompatible', ValueError, lambda: real.value(wrong), lambda: (ctx(), wrong))
    m.raises('incompatible', ValueError, lambda: copy.copy(real).convert(wrong), lambda: (ctx(), wrong))


def order(m, a, b, wa, wb, ctx):
    o = wb.to(wa.u)
    big = max(abs(wa.x), abs(o), 1e-9)
    diff = abs(wa.x - o)
    if diff <= 1e-10 * big or diff <= 1e-10:
        rel = 0
    elif diff > 1e-8 * big and diff > 1e-8:
        rel = -1 if wa.x < o else 1
    else:
        return          # (too near the tolerance to say)
    m.eq('order', (a == b, a != b, a < b, a <= b, a > b, a >= b),
         (rel == 0, rel != 0, rel < 0, rel <= 0, rel > 0, rel >= 0), ctx)


def binary(m, rng, a, wa, b, wb, ctx):
    """a op b with both lengths or both resolutions."""
    op = rng.choice(['add', 'sub', 'mul', 'div', 'add', 'sub'])
    u = wa.u
    if u is None and wb.u is not None:
        u = wb.u
    x = wa.to(u) if u != wa.u else wa.x
    y = wb.to(u) if u != wb.u else wb.x
    if op == 'div' and abs(y) < 1e-3:
        op = 'mul'
    r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'div': lambda: x / y}[op]()
    want = L(wa.c, r, u, wa.d)
    c = lambda: (op, ctx())
    if rng.random() < 0.5:
        got = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'div': lambda: a / b}[op]()
        m.check('fresh', got is not a and got is not b, c)
        same(m, 'left', a, wa, c)
    else:
        k = copy.copy(a)
        got = k
        if op == 'add':
            got += b
        elif op == 'sub':
            got -= b
        elif op == 'mul':
            got *= b
        else:
            got /= b
        m.check('in-place', got is k, c)
    tol = TOL * max(1.0, abs(x), abs(y), abs(r))
    m.eq('arithmetic-unit', got.unit, None if u == '' else u, c)
    m.close('arithmetic', got.value(got.unit), r, tol, c)
    m.check('arithmetic-context', got.context is wa.c.el, c)
    v = want.px()
    m.close('arithmetic-px', got.value('dppx' if want.resolution() else None), v, tol * max(1.0, wa.c.factor(u, wa.d)), c)
    same(m, 'right', b, wb, c)


def scalar(m, rng, a, wa, ctx):
    s = rng.choice([2, -1, 0.5, 3, 1 / 3, -0.25, 10, 1])
    op = rng.choice(['mul', 'rmul', 'div', 'neg', 'pos', 'abs', 'imul', 'idiv', 'pow'])
    c = lambda: (op, s, ctx())
    k = copy.copy(a)
    if op == 'mul':
        got, r = a * s, wa.x * s
    elif op == 'rmul':
        got, r = s * a, wa.x * s
    elif op == 'div':
        got, r = a / s, wa.x / s
    elif op == 'neg':
        got, r = -a, -wa.x
    elif op == 'pos':
        got, r = +a, wa.x
    elif op == 'abs':
        got, r = abs(a), abs(wa.x)
    elif op == 'pow':
        e = rng.choice([2, 2, 3, 0, 1, 0.5, 1.5, -1, 2.25])
        if wa.x <= 0 and e in (0.5, 1.5, 2.25) or abs(wa.x) < 1e-3:
            e = 2
        got, r = a ** e, wa.x ** e
    else:
        got = k
        if op == 'imul':
            got *= s
            r = wa.x * s
        else:
            got /= s
            r = wa.x / s
        m.check('in-place', got is k, c)
    same(m, 'scalar', got, L(wa.c, r, wa.u, wa.d), c)
    same(m, 'left', a, wa, c)
    for bad in ('2', None, [1]):
        m.raises('operand', TypeError, lambda: a * bad, c)
        m.raises('operand', TypeError, lambda: a + bad, c)
    m.raises('operand', TypeError, lambda: a + 2, c)
    m.raises('operand', TypeError, lambda: a < 2, c)
    m.check('operand', (a == 2) is False and (a != 2) is True, c)


BAD = ['', ' ', 'px', '+', '-', '.', 'e3', 'auto', '5foo', '1pxx', '3xyz', '#1', '--2', '5metres', '7dpii', ',1']


def case(m, rng, i):
    where = None
    if i % 4 == 0:
        c, where = context(rng)
    else:
        c = Ctx()
    for _ in range(4 if c.el is not None else 12):
        a, wa, how_a = make(m, rng, c)
        ctx = lambda: (how_a, where)
        kinds(m, a, wa, ctx)
        values(m, rng, a, wa, ctx)
        scalar(m, rng, a, wa, ctx)
        pool = list(RES) if wa.resolution() else LENGTHS
        u = rng.choice(pool)
        b, wb, how_b = make(m, rng, c, u)
        if rng.random() < 0.25:
            # the same length in another unit
            b = copy.copy(a)
            b.convert(u)
            wb = L(c, wa.to(u), u, wa.d)
            how_b = ('converted', u)
        both = lambda: (how_a, how_b, where)
        order(m, a, b, wa, wb, both)
        binary(m, rng, a, wa, b, wb, both)
        other = rng.choice(LENGTHS[1:] if wa.resolution() else list(RES))
        z = SVGLength(1, other)
        for f in (lambda: a + z, lambda: a - z, lambda: a == z, lambda: a < z):
            m.raises('incompatible', ValueError, f, ctx)
        t = a.tostring()
        kw = {'context': c.el} if c.el is not None else {}
        again = SVGLength(t, **kw)
        m.eq('round-trip', (again.unit, again.tostring()), (a.unit, t), both)
        m.event(how_a[0], wa.u, how_b[0], wb.u)
    m.raises('bad-text', ValueError, lambda: SVGLength(rng.choice(BAD)), 'bad')
    m.sample({'a': how_a, 'b': how_b, 'doc': where})


def fixed(m, rng):
    z = SVGLength()
    m.eq('default', (z.tostring(), z.value(), z.unit), ('0', 0, None), 'default')
    for bad in BAD:
        m.raises('bad-text', ValueError, lambda: SVGLength(bad), bad)
    for u in list(RES) + LENGTHS[1:] + HALF:
        for one in (1, -1, 0.5):
            x = SVGLength('%s%s' % (one, u))
            m.eq('fixed', (x.unit, x.value(u)), (u, one), (u, one))
    for one in (SVGLength(5), SVGLength('5px')):
        m.raises('zero', ArithmeticError, lambda: one / 0, 'zero')
        m.raises('zero', ArithmeticError, lambda: one / SVGLength(0), 'zero')


def liveness(m, rng):
    """Relative lengths follow later changes of their element."""
    for _ in range(6):
        root = sm.node('svg')
        root['a'].update(width='400', height='300')
        g = sm.node('g')
        r = sm.node('rect')
        sm.add(root, g)
        sm.add(g, r)
        el = build(sm.xml(root), (1000, 700))
        rect = el[0][0]
        lens = [SVGLength(t, context=rect, direction=d) for t, d in
                [('2em', None), ('3rem', None), ('10%', 1), ('10%', 2), ('5vw', None), ('5vmin', None)]]
        for _ in range(4):
            n, e = rng.choice([(root, el), (g, el[0]), (r, rect)])
            if n is root and rng.random() < 0.6:
                k = rng.choice(['width', 'height'])
                v = str(rng.randint(10, 900))
            else:
                k, v = 'font-size', str(rng.randint(11, 60))
            n['a'][k] = v
            e.set(k, v)
            model = sm.Model(root, (1000, 700))
            w, h = model.base(r)
            fs, rfs = model.font_size(r), model.font_size(root)
            want = [2 * fs, 3 * rfs, w / 10, h / 10, w / 20, min(w, h) / 20]
            for a, b in zip(lens, want):
                m.close('live', a.value(), b, 1e-6, lambda: (str(a), sm.xml(root)))


def fonts(m, rng):
    """ex, cap, ch and ic of an element: the measures of its font, whose size it is."""
    for _ in range(12):
        root = sm.node('svg', {'width': '300', 'height': '200'})
        g = sm.add(root, sm.node('g'))
        n = sm.add(g, sm.node(rng.choice(['rect', 'text'])))
        for x in (root, g, n):
            if rng.random() < 0.6:
                x['a']['font-size'] = sg.font_size(rng)
            if rng.random() < 0.5:
                x['a']['font-family'] = rng.choice(['DejaVu Sans', 'DejaVu Serif', 'DejaVu Sans Mono'])
                x['a']['font-weight'] = rng.choice(['normal', 'bold'])
        el = build(sm.xml(root), (1000, 700))[0][0]
        for step in range(3):
            fs = sm.Model(root, (1000, 700)).font_size(n)
            font = Font(el)
            per = {'ex': font.x_height, 'cap': font.cap_height, 'ch': font.ch_advance, 'ic': font.ic_advance}
            for u in rng.sample(HALF, 3):
                k = float(per[u]) or fs
                x = number(rng)
                d = rng.choice([None, None, 'h', 'v'])
                kw = {} if d is None else {'direction': D[d]}
                ctx = lambda: (u, x, d, per, fs, sm.xml(root))
                a = SVGLength(rng.choice(['%s%s', ' %s%s', '%s%s '])[:] % (x, u), context=el, **kw)
                m.close('font-unit', a.value(), x * k, 1e-6 * max(1.0, abs(x * k)), ctx)
                m.close('font-unit', a.value('pt'), x * k * 0.75, 1e-6 * max(1.0, abs(x * k)), ctx)
                m.close('font-unit', a.value('em'), x * k / fs, 1e-6 * max(1.0, abs(x * k)), ctx)
                m.eq('font-unit', (a.unit, a.isrelative(), a.isabsolute()), (u, True, False), ctx)
                # the way back: the font's size is then the length itself
                m.check('font-unit-text', a.tostring().endswith(u), lambda: (a.tostring(), ctx()))
            if rng.random() < 0.7:
                x, e = rng.choice([(n, el), (g, el.getparent())])
                if rng.random() < 0.5:
                    x['a']['font-size'] = sg.font_size(rng)
                    e.set('font-size', x['a']['font-size'])
                else:
                    x['a']['font-family'] = rng.choice(['DejaVu Sans', 'DejaVu Serif', 'DejaVu Sans Mono'])
                    e.set('font-family', x['a']['font-family'])


if __name__ == '__main__':
    vf.main(vf.Spec(
        'L01', case, quick=1400, thorough=60000, fixed=[fixed, liveness, fonts],
        rule='pairs of lengths or resolutions in every unit, with and without a context element, all operators and conversions',
        required=['parse', 'kind', 'value', 'text', 'convert', 'convert-back', 'incompatible', 'order', 'arithmetic', 'arithmetic-px',
                  'arithmetic-context', 'scalar', 'fresh', 'in-place', 'left', 'right', 'operand', 'round-trip', 'bad-text', 'live', 'font-unit'],
        anchors=['svgpy/core.py'],
        assumptions=['ex, cap, ch and ic with a context depend on the installed fonts and are compared without one only']))
