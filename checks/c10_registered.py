"""C10: registered custom properties are typed by their syntax in their document; all others stay texts."""
import vf
from svgpy.css import CSS
from svgpy.css.props import PropertyDescriptor
from svgpy.css.types import (CSSImageValue, CSSKeywordValue, CSSMathValue, CSSStyleValue, CSSUnitValue, CSSUnparsedValue, CSSURLImageValue)
from svgpy.window import SVGDOMImplementation, Window, window

UNITS = {'length': ['px', 'em', 'ex', 'ch', 'rem', 'vw', 'vmax', 'cm', 'mm', 'in', 'pt', 'pc'], 'angle': ['deg', 'grad', 'rad', 'turn'],
         'time': ['s', 'ms'], 'resolution': ['dpi', 'dpcm', 'dppx']}
TYPES = ['length', 'length-percentage', 'percentage', 'number', 'integer', 'angle', 'time', 'resolution', 'color', 'image', 'url', 'custom-ident', 'string']
WORDS = ['foo', 'bar-baz', 'auto', 'x1', 'Thin', '-a']
WIDE = ['inherit', 'initial', 'unset', 'revert', 'INHERIT', 'Unset']
IMPL = SVGDOMImplementation()


def atom(rng):
    """text, kind, amount, unit"""
    r = rng.choice(['length', 'length', 'percentage', 'integer', 'number', 'angle', 'time', 'resolution', 'hex', 'rgb', 'name', 'current', 'gradient', 'url', 'word',
                    'word', 'quoted', 'math', 'block'])
    if r in UNITS:
        v = rng.choice(['0', '1', '-2', '12', '1.5', '-0.25', '300'])
        u = rng.choice(UNITS[r])
        return v + rng.choice([u, u, u.upper()]), r, float(v), u
    if r == 'percentage':
        v = rng.choice(['0', '5', '-3.5', '120'])
        return v + '%', r, float(v), 'percent'
    if r == 'integer':
        v = rng.choice(['0', '1', '-7', '42'])
        return v, r, float(v), 'number'
    if r == 'number':
        v = rng.choice(['1.5', '-0.25', '3.0', '.5'])
        return v, r, float(v), 'number'
    return {'hex': rng.choice(['#abc', '#A1b2c3', '#abcd']), 'rgb': rng.choice(['rgb(1,2,3)', 'rgba(1,2,3,0.5)', 'hsl(120,50%,50%)']),
            'name': rng.choice(['red', 'Navy', 'lime']), 'current': rng.choice(['currentcolor', 'currentColor']),
            'gradient': rng.choice(['linear-gradient(red,blue)', 'radial-gradient(red,blue)']), 'url': rng.choice(['url(a.png)', 'url(http://x/y)']),
            'word': rng.choice(WORDS), 'quoted': rng.choice(['"s"', '"a b"']), 'math': rng.choice(['calc(1px + 2%)', 'calc(3px + 4em)', 'min(1px,2%)']),
            'block': rng.choice(['{x}', '[a]', '(b)'])}[r], r, None, None


def accepts(types, words, a):
    """The type that takes the value, or None."""
    text, kind, v, u = a
    if kind == 'length':
        return next((t for t in ('length', 'length-percentage') if t in types), None)
    if kind in ('angle', 'time', 'resolution'):
        return kind if kind in types else None
    if kind == 'percentage':
        return next((t for t in ('percentage', 'length-percentage') if t in types), None)
    if kind in ('integer', 'number'):
        order = (['integer'] if kind == 'integer' else []) + ['number', 'length', 'length-percentage']
        return next((t for t in order if t in types), None)
    if kind in ('hex', 'rgb'):
        return 'color' if 'color' in types else None
    if kind == 'word' and text.lower() in [w.lower() for w in words]:
        return 'keyword'
    if kind in ('name', 'current') and 'color' in types:
        return 'color' if kind == 'name' else 'keyword'
    if kind in ('word', 'name', 'current'):
        return 'keyword' if 'custom-ident' in types or 'string' in types else None
    if kind == 'quoted':
        return 'keyword' if 'string' in types or 'custom-ident' in types else None
    if kind == 'gradient':
        return 'image' if 'image' in types else None
    if kind == 'url':
        return next((t for t in ('url', 'image') if t in types), None)
    if kind == 'math':
        return 'math' if 'length-percentage' in types else None
    return None


def murky(types, a):
    """Where the types of the library are looser than the names say: not judged."""
    return (a[1] in ('integer', 'number') and ('custom-ident' in types or 'string' in types) or a[1] == 'quoted' and 'string' not in types and 'custom-ident' in types)


def typed(m, v, t, a, name, ctx):
    text, kind, amount, unit = a
    m.eq('typed', v.associated_property, name, ctx)
    if kind in UNITS or kind in ('percentage', 'integer', 'number'):
        if t in ('length', 'length-percentage') and unit == 'number':
            unit = 'px'
        m.check('typed', type(v) is CSSUnitValue and v.value == amount and v.unit == unit.lower(), lambda: (v.__dict__, ctx()))
    elif t == 'color':
        m.check('typed', type(v) is CSSStyleValue and v.value == text, lambda: (type(v), v.value, ctx()))
    elif t == 'keyword':
        m.check('typed', type(v) is CSSKeywordValue and v.value == (text.lower() if kind == 'current' else text), lambda: (type(v), v.value, ctx()))
    elif t == 'image':
        m.check('typed', type(v) is CSSImageValue, lambda: (type(v), ctx()))
    elif t == 'url':
        m.check('typed', type(v) is CSSURLImageValue and v.value == text[4:-1], lambda: (type(v), v.value, ctx()))
    elif t == 'math':
        m.check('typed', isinstance(v, CSSMathValue), lambda: (type(v), ctx()))
    m.saw('type.' + t)


def unparsed(m, key, name, text, doc):
    vs = CSSStyleValue.parse_all(name, text, context=doc)
    m.check(key, len(vs) == 1 and type(vs[0]) is CSSUnparsedValue and vs[0].tostring() == text and vs[0].associated_property == name,
            lambda: (name, text, [(type(v), v.tostring()) for v in vs]))
    v = CSSStyleValue.parse(name, text, context=doc)
    m.check(key, type(v) is CSSUnparsedValue and v.tostring() == text, lambda: (name, text))


def syntax(rng):
    types = rng.sample(TYPES, rng.choice([0, 1, 1, 1, 2, 3]))
    words = rng.sample(WORDS, rng.choice([0, 0, 1, 2]) if types else rng.choice([1, 2, 3]))
    parts = ['<%s>' % t for t in types] + words
    rng.shuffle(parts)
    mult = rng.choice(['', '', '', '#', '#', '+', '?', '{1,3}'])
    return types, words, mult, rng.choice([' | ', ' | ', '|', ' || ', '||']).join(p + mult for p in parts)


def judge(m, rng, name, reg, doc):
    types, words, mult, text, _ = reg
    d = doc.registered_property_set[name]
    kind = rng.random()
    if kind < 0.12:
        t = rng.choice(WIDE)
        m.check('wide', d.supports(t), (text, t))
        v = CSSStyleValue.parse(name, t, context=doc)
        m.check('wide', type(v) is CSSKeywordValue and v.value == t.lower(), lambda: (text, t, v.value))
        t = t + ' ' + rng.choice(['foo', '1px', 'inherit'])
        m.check('wide', not d.supports(t), (text, t))
        m.raises('wide', ValueError, lambda: CSSStyleValue.parse(name, t, context=doc), (text, t))
    elif kind < 0.24:
        t = rng.choice(['var(--y)', 'var(--y, 1px)', 'calc(var(--y) + 1px)', 'red var(--y)', 'VAR(--y)'])
        vs = CSSStyleValue.parse_all(name, t, context=doc)
        m.check('var', len(vs) == 1 and type(vs[0]) is CSSUnparsedValue, lambda: (text, t, vs))
    elif kind < 0.4 and mult == '#':
        atoms = [a for a in (atom(rng) for _ in range(rng.randint(2, 4))) if a[1] != 'block' and not murky(types, a)]
        t = ', '.join(a[0] for a in atoms)
        took = [accepts(types, words, a) for a in atoms]
        if len(atoms) < 2:
            return
        m.eq('list', d.supports(t), all(took), lambda: (text, t))
        if all(took):
            vs = CSSStyleValue.parse_all(name, t, context=doc)
            m.eq('list', len(vs), len(atoms), lambda: (text, t))
            for v, k, a in zip(vs, took, atoms):
                typed(m, v, k, a, name, lambda: (text, t))
            typed(m, CSSStyleValue.parse(name, t, context=doc), took[0], atoms[0], name, lambda: (text, t))
        else:
            m.raises('list', ValueError, lambda: CSSStyleValue.parse_all(name, t, context=doc), lambda: (text, t))
    else:
        a = atom(rng)
        if murky(types, a):
            return
        t = accepts(types, words, a)
        ctx = lambda: (text, a)
        m.eq('supports', d.supports(a[0]), t is not None, ctx)
        if t is None:
            m.raises('refused', ValueError, lambda: CSSStyleValue.parse(name, a[0], context=doc), ctx)
            m.raises('refused', ValueError, lambda: CSSStyleValue.parse_all(name, a[0], context=doc), ctx)
            return
        vs = CSSStyleValue.parse_all(name, a[0], context=doc)
        m.eq('typed', len(vs), 1, ctx)
        typed(m, vs[0], t, a, name, ctx)
        typed(m, CSSStyleValue.parse(name, a[0], context=doc), t, a, name, ctx)
        m.state(tuple(sorted(types)), bool(words), mult, a[1], t)


def case(m, rng, i):
    docs = [IMPL.create_svg_document() for _ in range(2)] + [Window(IMPL).document]
    known = [{} for _ in docs]
    names = ['--a', '--A', '--b-c', '--fill', '--x1', '--\u00e9']
    for _ in range(rng.randint(6, 20)):
        k = rng.randrange(len(docs))
        doc, regs = docs[k], known[k]
        name = rng.choice(names)
        op = rng.random()
        if op < 0.35:
            types, words, mult, text = syntax(rng)
            inherits, initial = rng.random() < 0.5, rng.choice([None, '0', 'red'])
            d = PropertyDescriptor(name, inherits, text, initial)
            m.check('descriptor', d.name == name and d.inherits is inherits and d.syntax == text and d.initial_value == initial, text)
            if name in regs:
                m.raises('twice', ValueError, lambda: CSS.register_property(d, context=doc), (name, text))
            else:
                CSS.register_property(d, context=doc)
                regs[name] = (types, words, mult, text, d)
            m.event(('register', k, name, text))
        elif op < 0.4:
            bad = rng.choice(['fill', '-a', 'width', '', 'a--b', 'x'])
            m.raises('name', ValueError, lambda: CSS.register_property(PropertyDescriptor(bad, False, '<color>'), context=doc), bad)
        elif name in regs:
            for _ in range(3):
                judge(m, rng, name, regs[name], doc)
        else:
            t = rng.choice(['1px', 'red', 'a b', '{x}', '1px, 2px', 'a(b c)', '"q"', '5'])
            unparsed(m, 'unregistered', name, t, doc)
            if t != '{x}' and rng.random() < 0.3:
                t = rng.choice(['1px', 'red'])
                v = CSSStyleValue.parse('stroke-width' if t == '1px' else 'stop-color', t, context=doc)
                m.check('builtin', type(v) is (CSSUnitValue if t == '1px' else CSSKeywordValue), lambda: (t, type(v)))
        for d, r in zip(docs, known):
            s = d.registered_property_set
            m.check('registered', len(s) == len(r) and all(s.get(n) is v[4] for n, v in r.items()), lambda: (sorted(s), sorted(r)))
    m.sample({n: v[3] for n, v in known[0].items()})


def default(m, rng):
    """Without a document, the one of the default window counts."""
    real = window.document.registered_property_set
    saved = dict(real)
    try:
        real.clear()
        d = PropertyDescriptor('--default', True, '<length>')
        CSS.register_property(d)
        m.check('default', real.get('--default') is d and len(real) == 1)
        m.check('default', type(CSSStyleValue.parse('--default', '3px')) is CSSUnitValue)
        m.raises('default', ValueError, lambda: CSSStyleValue.parse('--default', 'red'))
        m.raises('default', ValueError, lambda: CSS.register_property(d))
        other = IMPL.create_svg_document()
        unparsed(m, 'default', '--default', 'red', other)
        m.eq('default', PropertyDescriptor('--p', False).syntax, '*')
        m.check('default', PropertyDescriptor('--p', False).initial_value is None)
    finally:
        real.clear()
        real.update(saved)


if __name__ == '__main__':
    vf.main(vf.Spec(
        'C10', case, quick=16000, thorough=300000,
        rule='histories of registering custom properties in three documents and parsing values of every component type for registered and other names; '
             'a state is the component types of a syntax, its multiplier, the kind of value and the type that took it',
        required=['registered', 'twice', 'name', 'descriptor', 'typed', 'supports', 'refused', 'list', 'wide', 'var', 'unregistered', 'default', 'builtin',
                  'type.color', 'type.keyword', 'type.url', 'type.image', 'type.math', 'type.length', 'type.length-percentage', 'type.angle', 'type.integer'],
        fixed=[default],
        anchors=['svgpy/css/types.py', 'svgpy/css/props.py', 'svgpy/css/__init__.py'],
        assumptions=['syntaxes are alternatives of component types and words, with one multiplier or none, which matters for # only; values are single components or lists with commas']))
