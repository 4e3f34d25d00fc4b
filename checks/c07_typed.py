"""C07: typed style maps and values: live views of a declaration block, each value of the kind its property calls for."""
import re

import vf
from svgpy import SVGParser
from svgpy.css import CSS, CSSStyleDeclaration
from svgpy.css.types import (CSSKeywordValue, CSSMathClamp, CSSMathMax, CSSMathMin, CSSMathSum, CSSNumericValue, CSSStyleValue, CSSUnitValue, CSSUnparsedValue,
                             CSSURLImageValue, CSSVariableReferenceValue, StylePropertyMap, StylePropertyMapReadOnly)

WIDE = ['inherit', 'initial', 'unset', 'revert', 'INHERIT', 'Unset']
LP = {n: [] for n in ('cx', 'cy', 'r', 'x', 'y', 'stroke-width', 'stroke-dashoffset', 'shape-margin')}
LP.update({'rx': ['auto'], 'ry': ['auto'], 'width': ['auto', 'min-content'], 'height': ['auto', 'max-content'], 'baseline-shift': ['sub', 'super'],
           'font-size': ['small', 'xx-large'], 'word-spacing': ['normal'], 'inline-size': ['auto'], 'max-width': ['none'], 'min-height': ['auto']})
LENGTH = {'letter-spacing': ['normal'], 'shape-padding': [], 'text-decoration-width': ['auto', 'from-font']}
NUMBER = {'stroke-miterlimit': [], 'shape-image-threshold': [], 'font-size-adjust': ['none']}
NUMPCT = {n: [] for n in ('opacity', 'fill-opacity', 'stroke-opacity', 'stop-opacity', 'flood-opacity')}
ANGLE = {'glyph-orientation-vertical': ['auto']}
KEYWORD = {'clip-rule': ['nonzero', 'evenodd'], 'fill-rule': ['nonzero', 'evenodd'], 'direction': ['ltr', 'rtl'], 'display': ['inline', 'block', 'none', 'list-item'],
           'color-interpolation': ['auto', 'sRGB', 'linearRGB'], 'stroke-linecap': ['butt', 'round', 'square'], 'stroke-linejoin': ['miter', 'bevel'],
           'text-anchor': ['start', 'middle', 'end'], 'visibility': ['visible', 'hidden', 'collapse'], 'pointer-events': ['none', 'visiblePainted', 'all'],
           'shape-rendering': ['auto', 'crispEdges', 'geometricPrecision'], 'overflow-x': ['visible', 'hidden'], 'writing-mode': ['horizontal-tb', 'vertical-rl'],
           'unicode-bidi': ['normal', 'embed'], 'isolation': ['auto', 'isolate'], 'text-rendering': ['optimizeSpeed']}
COLOR = {n: [] for n in ('color', 'flood-color', 'lighting-color')}
URL = {n: ['none'] for n in ('marker-start', 'marker-mid', 'marker-end', 'filter', 'clip-path', 'mask-image')}
PROPS = {}
for kind, d in (('lp', LP), ('length', LENGTH), ('number', NUMBER), ('numpct', NUMPCT), ('angle', ANGLE), ('keyword', KEYWORD), ('color', COLOR), ('url', URL)):
    for n, kws in d.items():
        PROPS[n] = (kind, kws)
CUSTOM = ['--a', '--A', '--foo-bar']
COLORS = ['red', 'transparent', '#abc', '#AABBCC', 'rgb(1, 2, 3)', 'hsl(10, 20%, 30%)', 'SlateBlue', 'BLUE']
LENGTHS = ['em', 'ex', 'px', 'cm', 'mm', 'q', 'in', 'pt', 'pc', 'vw', 'vh', 'rem', 'ch', 'vmin']
NUMS = ['0', '1', '2.5', '-3', '.5', '+4', '100', '-0.25', '1e2']
ADDR = ['#a', 'a.png', 'http://x.y/z?q#f', 'a b', 'x;y', 'p(q)', "it's"]
MATH = [('calc(1px + 2px)', CSSMathSum), ('calc(1em + 10%)', CSSMathSum), ('max(1px, 10%)', CSSMathMax), ('min(1em, 2px, 3%)', CSSMathMin), ('clamp(1px, 2em, 3px)', CSSMathClamp),
        ('MAX(1px, (2px + 3px) * 2)', CSSMathMax)]


def recase(rng, t):
    return rng.choice([t, t, t, t.upper(), t.title()])


# --- references to custom properties: a tree, its text and the members it stands for ---------------------------------------------
def gen_ref(rng, depth, comments):
    """A list of pieces: str | ('v', name, fallback or None) | ('f', open, pieces, close)."""
    out = []
    for _ in range(rng.choice([0, 1, 1, 2, 3]) if depth else rng.choice([0, 1])):
        r = rng.random()
        if r < 0.4 and depth:
            out.append(('v', rng.choice(['--a', '--b', '--A-1', '--\u00e9']), None if rng.random() < 0.5 else gen_ref(rng, depth - 1, comments)))
        elif r < 0.65 and depth:
            out.append(('f',) + rng.choice([('calc(', ')'), ('f(', ')'), ('(', ')'), ('[', ']'), ('rgb(', ')')]) + (gen_ref(rng, depth - 1, comments),))
        else:
            out.append(rng.choice(['a', '1px', '"s t"', ',', '+', '/', '#abc', '50%', '"var(--n)"', 'x-y', '2'] + (['/* c */', '/* var(--c) */'] if comments else [])))
        out.append(' ')
    if out and out[-1] == ' ':
        out.pop()
    return out


def ref_text(rng, pieces):
    out = ''
    for p in pieces:
        if isinstance(p, str):
            out += p
        elif p[0] == 'v':
            w = rng.choice(['', '', ' ']) if rng else ''
            out += (rng.choice(['var(', 'var(', 'VAR(', 'Var(']) if rng else 'var(') + w + p[1] + (rng.choice(['', '', ' ']) if rng else '') + ('' if p[2] is None else ',' + ref_text(rng, p[2])) + ')'
        else:
            out += p[1] + ref_text(rng, p[3]) + p[2]
    return out


def members(pieces):
    out = []

    def add(x):
        if isinstance(x, str) and out and isinstance(out[-1], str):
            out[-1] += x
        else:
            out.append(x)
    for p in pieces:
        if isinstance(p, str):
            add(p)
        elif p[0] == 'v':
            add((p[1], None if p[2] is None else members(p[2])))
        else:
            add(p[1])
            for x in members(p[3]):
                add(x)
            add(p[2])
    return out


def seen(value):
    return [x if isinstance(x, str) else (x.variable, None if x.fallback is None else seen(x.fallback)) for x in value]


def has_ref(pieces):
    return any(not isinstance(p, str) and (p[0] == 'v' or has_ref(p[3])) for p in pieces)


def strip(t):
    # the installed tinycss2 does not know identifiers that start with two hyphens
    return re.sub(r'\s+', ' ', t.replace('-/**/-', '--')).strip()


def gen_value(rng, name, refs=True):
    """(text, expectation) of a valid value."""
    if refs and rng.random() < 0.12 or name.startswith('--'):
        for _ in range(20):
            pieces = gen_ref(rng, 3, False)
            if has_ref(pieces) or (name.startswith('--') and pieces):
                return ref_text(rng, pieces), ('unparsed', members(pieces))
    if name.startswith('--'):
        return 'x', ('unparsed', ['x'])
    kind, kws = PROPS[name]
    if rng.random() < 0.08:
        w = rng.choice(WIDE)
        return w, ('kw', w.lower())
    if kws and (kind == 'keyword' or rng.random() < 0.25):
        k = rng.choice(kws)
        t = recase(rng, k)
        return t, ('kw', k.lower())
    if kind == 'color':
        c = rng.choice(COLORS)
        return c, ('style', c)
    if kind == 'url':
        a = rng.choice(ADDR)
        plain = not re.search('[ ()\']', a)
        return (rng.choice(['url("%s")', 'url(%s)', "url('%s')", 'url( %s )']) if plain else 'url("%s")') % a, ('url', a)
    n = rng.choice(NUMS)
    if kind == 'lp' and rng.random() < 0.2:
        t, cls = rng.choice(MATH)
        return t, ('math', t, cls)
    if kind in ('lp', 'numpct') and rng.random() < 0.3:
        return n + '%', ('unit', float(n), 'percent')
    if kind in ('number', 'numpct'):
        return n, ('unit', float(n), 'number')
    u = rng.choice(['deg', 'grad', 'rad', 'turn'] if kind == 'angle' else LENGTHS)
    if kind != 'angle' and rng.random() < 0.15:
        return n, ('unit', float(n), 'px')          # a length without a unit is in pixels
    return n + (u if 'e' in n else recase(rng, u)), ('unit', float(n), u)


def gen_bad(rng, name):
    kind, kws = PROPS[name]
    pool = ['bogus-word', '[a]', '{a}', '(1px)', '@x', 'foo(1)', '1s', '2dppx', '3foo', '"' + (kws or ['auto'])[0] + '"', '"inherit"', 'inherit inherit', 'unset 1px', '"a\nb', 'U+26']
    if kind in ('number', 'keyword', 'color', 'url'):
        pool += ['1px', '10%', '45deg', 'calc(1px + 2px)']
    if kind in ('keyword', 'color', 'url'):
        pool += ['1', '0.5']
    if kind != 'color':
        pool += ['#abc', 'rgb(1, 2, 3)', 'tomato']
    else:
        pool += ['#abcde', '#xyz']
    if kind != 'url':
        pool += ['url(#a)', 'url("x")']
    if kind == 'length':
        pool += ['10%']
    if kind == 'lp':
        pool += ['45deg']
    if kind == 'keyword':
        pool += ['"x"', kws[0] + '-x', 'x' + kws[0]]
    return rng.choice(pool)


def check_value(m, tag, v, name, want, ctx):
    k = want[0]
    if k == 'unparsed':
        m.check(tag + '.unparsed', type(v) is CSSUnparsedValue and seen(v) == want[1], lambda: (type(v), v and seen(v), want, ctx))
    elif k == 'kw':
        m.check(tag + '.keyword', type(v) is CSSKeywordValue and v.value.lower() == want[1], lambda: (type(v), v and v.tostring(), want, ctx))
    elif k == 'unit':
        m.check(tag + '.unit', type(v) is CSSUnitValue and v.unit == want[2] and abs(v.value - want[1]) < 1e-9, lambda: (type(v), v and v.tostring(), want, ctx))
    elif k == 'math':
        m.check(tag + '.math', type(v) is want[2] and v.equals(CSSNumericValue.parse(want[1])), lambda: (type(v), v and v.tostring(), want, ctx))
    elif k == 'url':
        m.check(tag + '.url', type(v) is CSSURLImageValue and re.fullmatch(r'''url\((["']?) *%s *\1\)''' % re.escape(want[1]), v.tostring()) is not None,
                lambda: (type(v), v and v.tostring(), want, ctx))
    else:
        m.check(tag + '.style', type(v) is CSSStyleValue and v.tostring().lower() == want[1].lower(), lambda: (type(v), v and v.tostring(), want, ctx))


def make_value(rng, name, text, want):
    """A value object, by hand or parsed."""
    if rng.random() < 0.5:
        return CSSStyleValue.parse(name, text)
    k = want[0]
    if k == 'unit':
        return CSSUnitValue(want[1], want[2])
    if k == 'kw':
        return CSSKeywordValue(want[1])
    if k == 'math':
        return CSSNumericValue.parse(text)
    if k == 'url' and '"' not in want[1]:
        return CSSURLImageValue(want[1])
    if k == 'unparsed':
        def build(ms):
            return [x if isinstance(x, str) else CSSVariableReferenceValue(x[0], None if x[1] is None else CSSUnparsedValue(build(x[1]))) for x in ms]
        return CSSUnparsedValue(build(want[1]))
    return CSSStyleValue.parse(name, text)


def case_unparsed(m, rng):
    """A CSSUnparsedValue is a list of its members and its text always theirs."""
    while True:
        pieces = gen_ref(rng, 3, True)
        if has_ref(pieces):
            break
    name = rng.choice(CUSTOM + ['x', 'fill', 'color', 'unheard-of', 'marker-start'])
    text = ref_text(rng, pieces)
    v = CSSStyleValue.parse(name, text)
    model = members(pieces)
    m.state('unparsed', text)

    def body(ms):
        return ''.join(x if isinstance(x, str) else 'var(' + x[0] + ('' if x[1] is None else ',' + body(x[1])) + ')' for x in ms)
    for step in range(rng.randint(1, 6)):
        m.check('list.members', type(v) is CSSUnparsedValue and seen(v) == model, lambda: (seen(v), model, text))
        m.check('list.length', len(v) == v.length == len(model) and [x if isinstance(x, str) else x.variable for x in v] == [x if isinstance(x, str) else x[0] for x in model], text)
        m.eq('list.text', v.tostring(), body(model), text)
        r = rng.random()
        new = rng.choice(['z ', ('--z', None), ('--z', ['q']), ('--z', [])])
        obj = new if isinstance(new, str) else CSSVariableReferenceValue(new[0], None if new[1] is None else CSSUnparsedValue(list(new[1])))
        n = len(model)
        if r < 0.2 and n:
            k = rng.randrange(-n, n)
            v[k] = obj
            model[k] = new
        elif r < 0.35:
            k = rng.randint(-n - 1, n + 1)
            v.insert(k, obj)
            model.insert(k, new)
        elif r < 0.45:
            v.append(obj)
            model.append(new)
        elif r < 0.6 and n:
            k = rng.randrange(-n, n)
            del v[k]
            del model[k]
        elif r < 0.7 and n:
            a, b = sorted((rng.randint(0, n), rng.randint(0, n)))
            v[a:b] = [obj]
            model[a:b] = [new]
        elif r < 0.8 and n:
            m.check('list.pop', (lambda x: x if isinstance(x, str) else x.variable)(v.pop()) == (lambda x: x if isinstance(x, str) else x[0])(model.pop()), text)
        elif r < 0.9:
            ks = [k for k, x in enumerate(model) if not isinstance(x, str)]
            if ks:
                k = rng.choice(ks)
                v[k].variable = '--renamed'
                model[k] = ('--renamed', model[k][1])
        else:
            m.raises('list.type', TypeError, lambda: rng.choice([lambda: v.append(1), lambda: v.insert(0, None), lambda: v.__setitem__(slice(0, 0), [CSSUnitValue(1, 'px')])])(), text)


def case(m, rng, i):
    if rng.random() < 0.2:
        return case_unparsed(m, rng)
    if rng.random() < 0.3:
        # one property, one value
        name = rng.choice(list(PROPS))
        spelled = recase(rng, name)
        if rng.random() < 0.5:
            t = gen_bad(rng, name)
            m.state('bad', (PROPS[name][0], t))
            m.raises('bad.parse', ValueError, lambda: CSSStyleValue.parse(spelled, t), (name, t))
            m.check('bad.supports', CSS.supports(spelled, t) is False, (name, t))
            return
        t, want = gen_value(rng, name)
        ws = rng.choice(['', '', ' ', '/**/', '\n '])
        v = CSSStyleValue.parse(spelled, ws + t + ws) if want[0] not in ('unparsed', 'kw', 'style') else CSSStyleValue.parse(spelled, t)
        check_value(m, 'parsed', v, name, want, (name, t)) if want[0] != 'url' or not ws else m.check('parsed.url', type(v) is CSSURLImageValue, (name, t))
        m.eq('parsed.property', v.associated_property, name, (t,))
        vs = CSSStyleValue.parse_all(spelled, t)
        m.check('parsed.all', len(vs) == 1, (name, t))
        check_value(m, 'parsed.all', vs[0], name, want, (name, t))
        if want[0] != 'unparsed':
            m.check('good.supports', CSS.supports(spelled, t) is True, (name, t))
        if want[0] == 'kw':
            v.value = 'other'
            m.check('keyword.change', v.value == 'other' and v.tostring() == 'other', (name, t))
        return
    # a map and its declaration
    inline = rng.random() < 0.5
    el = None
    if inline:
        el = SVGParser().fromstring('<svg xmlns="http://www.w3.org/2000/svg"><g/></svg>')[0]
        decl = el.style
        names = [n for n in PROPS]
    else:
        decl = CSSStyleDeclaration()
        names = list(PROPS) + CUSTOM
    names = rng.sample(names, 5)
    sm = StylePropertyMap(decl)
    ro = StylePropertyMapReadOnly(decl)
    model = {}

    glance = vf.Glances(rng)

    def look(op):
        if not glance(rng) and op is not None:
            return
        ctx = (op, inline, {k: x[0] for k, x in model.items()})
        keys = [x.lower() for x in model]
        m.check('map.size', len(sm) == sm.size == len(ro) == len(model), lambda: (len(sm), ctx))
        got = list(sm)
        m.check('map.names', (sorted(got) == sorted(model) if inline else got == list(model)) and list(sm.keys()) == got and list(ro) == got, lambda: (got, ctx))
        for n in names + ['bogus-name']:
            s = n if n.startswith('--') else recase(rng, n)
            for mp in (sm, ro):
                m.check('map.has', mp.has(s) is (n in model) and (s in mp) is (n in model), lambda: (n, ctx))
            v = rng.choice([sm, ro]).get(s)
            vs = rng.choice([sm, ro]).get_all(s)
            if n not in model:
                m.check('map.absent', v is None and vs == [], lambda: (n, ctx))
                continue
            t, want = model[n]
            m.eq('map.declaration', (strip(decl.get_property_value(n)).lower() if want[0] != 'url' else ''), (strip(t).lower() if want[0] != 'url' else ''), lambda: (n, ctx))
            if isinstance(want, list):
                m.check('map.list', len(vs) == len(want), lambda: (n, ctx))
            else:
                m.check('map.one', len(vs) == 1, lambda: (n, ctx))
                check_value(m, 'map', v, n, want, (n, ctx))
                check_value(m, 'map.all', vs[0], n, want, (n, ctx))
        if inline:
            again = CSSStyleDeclaration()
            for part in re.findall(r'''(?:[^;"'(]|"[^"]*"|'[^']*'|\((?:[^()"']|"[^"]*"|\((?:[^()"']|"[^"]*"|\((?:[^()"']|"[^"]*"|\((?:[^()"']|"[^"]*")*\))*\))*\))*\))+''', el.get('style', '')):
                if part.strip():
                    k, x = part.split(':', 1)
                    again.set_property(k.strip(), x.replace('!important', '').strip())
            for n in model:
                m.eq('map.attribute', strip(again.get_property_value(n)).lower(), strip(decl.get_property_value(n)).lower(), lambda: (n, el.get('style'), ctx))

    def put(n, t, want):
        # as the map returns it
        model.pop(n, None)
        model[n] = (t, want)

    for step in range(rng.randint(1, 7)):
        n = rng.choice(names)
        s = n if n.startswith('--') else recase(rng, n)
        r = rng.random()
        if r < 0.3:
            t, want = gen_value(rng, n, not inline)
            rng.choice([sm.set, sm.__setitem__])(s, t)
            put(n, t, want)
            look(('set', n, t))
            m.eq('map.priority', decl.get_property_priority(n), '', (n, t))
        elif r < 0.55:
            t, want = gen_value(rng, n, not inline)
            v = make_value(rng, n, t, want)
            before = v.tostring()
            rng.choice([sm.set, sm.__setitem__])(s, v)
            put(n, before, want)
            m.eq('map.kept', v.tostring(), before, (n, t))
            look(('set value', n, t))
            m.eq('map.priority', decl.get_property_priority(n), '', (n, t))
        elif r < 0.7:
            if rng.random() < 0.5:
                sm.delete(s)
            else:
                del sm[s]
            model.pop(n, None)
            look(('delete', n))
        elif r < 0.85:
            t, want = gen_value(rng, n, not inline)
            decl.set_property(n, t, rng.choice(['', 'important']))
            put(n, t, want)
            look(('declared', n, t))
        else:
            other = rng.choice([x for x in PROPS if x != n])
            t, want = gen_value(rng, other, not inline)
            v = CSSStyleValue.parse(other, t)
            u = CSSUnparsedValue(['a ', CSSVariableReferenceValue('--q')])
            ok = gen_value(rng, n, not inline)[0]
            f, e = rng.choice([(lambda: sm.set(s, v), ValueError), (lambda: sm.set(s, 1), TypeError), (lambda: sm.set(s, ok, None), TypeError), (lambda: sm.set(s, ok, u), TypeError),
                               (lambda: sm.set(s, u, u), TypeError), (lambda: sm.set(s, ok, v), ValueError)])
            m.raises('map.refused', e, f, lambda: (n, t))
            look(('refused', n))
    look(None)
    # several values and shorthands
    if not inline and rng.random() < 0.3:
        lst = rng.sample(['a.png', 'b.png', 'c', '#d'], rng.randint(1, 4))
        sm.set('background-image', *[rng.choice([CSSURLImageValue(a), 'url("%s")' % a]) for a in lst])
        vs = sm.get_all('Background-Image')
        m.eq('list.values', [x.tostring().replace('url(', '').strip('")') for x in vs], lst, ())
        m.check('list.first', sm.get('background-image').tostring() == vs[0].tostring() if len(lst) > 1 else True, lst)
    if rng.random() < 0.4:
        t = rng.choice(['hidden', 'scroll', 'auto', 'visible'])
        sm.set(recase(rng, 'overflow'), t)
        m.check('shorthand.set', sm.has('Overflow') and 'overflow' in sm and all(sm.get('overflow-' + x).tostring() == t for x in 'xy'), t)
        m.check('shorthand.get', sm.get('overflow').tostring() == t, t)
        sm.delete(recase(rng, 'overflow'))
        m.check('shorthand.deleted', not sm.has('overflow') and not any(sm.has('overflow-' + x) for x in 'xy') and sm.get('overflow') is None, t)


if __name__ == '__main__':
    vf.main(vf.Spec('C07', case, quick=9000, thorough=200000,
                    rule='values of 60 properties and of custom properties, references nested to depth three, and edits of typed maps over declaration blocks and style attributes',
                    required=['parsed.unit', 'parsed.keyword', 'parsed.math', 'parsed.url', 'parsed.style', 'parsed.unparsed', 'bad.parse', 'bad.supports', 'good.supports',
                              'map.size', 'map.names', 'map.has', 'map.absent', 'map.unit', 'map.keyword', 'map.unparsed', 'map.url', 'map.style', 'map.math', 'map.refused',
                              'map.priority', 'list.members', 'list.text', 'list.type', 'list.values', 'shorthand.set', 'shorthand.deleted', 'keyword.change', 'map.attribute'],
                    anchors=['svgpy/css/types.py', 'svgpy/css/props.py'],
                    assumptions=['the map\'s append() is not implemented', 'values of several components are only generated for lists of addresses']))
