"""C02: shorthand properties and their longhands, in declaration blocks and style attributes."""
import vf
from svgpy.css import CSSParser, CSSStyleDeclaration
from svgpy.window import SVGDOMImplementation

WIDE = ['initial', 'inherit', 'unset', 'revert']
LONG = {
    'overflow': ['overflow-x', 'overflow-y'],
    'text-decoration': ['text-decoration-line', 'text-decoration-style', 'text-decoration-color'],
    'white-space': ['text-space-collapse', 'text-wrap', 'text-space-trim'],
    'font-synthesis': ['font-synthesis-weight', 'font-synthesis-style'],
    'font-variant': ['font-variant-ligatures', 'font-variant-caps', 'font-variant-alternates', 'font-variant-numeric',
                     'font-variant-east-asian', 'font-variant-position'],
    'mask': ['mask-image', 'mask-position', 'mask-size', 'mask-repeat', 'mask-origin', 'mask-clip', 'mask-composite', 'mask-mode'],
    'mask-border': ['mask-border-source', 'mask-border-slice', 'mask-border-width', 'mask-border-outset', 'mask-border-repeat',
                    'mask-border-mode'],
}
LONG['font'] = ['font-style'] + LONG['font-variant'] + ['font-weight', 'font-stretch', 'font-size', 'line-height', 'font-family']
FONT = [['italic', 'oblique'], ['small-caps'], ['bold', '600', 'lighter', '100'], ['condensed', 'semi-expanded', 'ultra-condensed']]
FONT_SIZE = ['12px', '150%', '2em', 'medium', 'larger', 'xx-small']
LINE = ['1.5', '14px', '120%', 'normal', '2em']
FAMILY = ['serif', 'Arial, sans-serif', '"A B", serif', 'Foo Bar, monospace', '"X; Y"']
FLOW = ['visible', 'hidden', 'clip', 'scroll', 'auto']
LINES = ['underline', 'overline', 'line-through', 'blink']
COLORS = ['red', '#fff', '#12ab34', 'rgb(1, 2, 3)', 'currentcolor', 'hsl(120, 50%, 50%)', 'rgba(1,2,3,.5)']
LIGA = [['common-ligatures', 'no-common-ligatures'], ['discretionary-ligatures', 'no-discretionary-ligatures'],
        ['historical-ligatures', 'no-historical-ligatures'], ['contextual', 'no-contextual']]
CAPS = ['small-caps', 'all-small-caps', 'petite-caps', 'all-petite-caps', 'unicase', 'titling-caps']
NUM = [['lining-nums', 'oldstyle-nums'], ['proportional-nums', 'tabular-nums'], ['diagonal-fractions', 'stacked-fractions'], ['ordinal'],
       ['slashed-zero']]
ASIAN = [['jis78', 'jis83', 'jis90', 'jis04', 'simplified', 'traditional'], ['full-width', 'proportional-width'], ['ruby']]
SPACE = {'normal': ('collapse', 'wrap', 'none'), 'pre': ('preserve', 'nowrap', 'none'), 'nowrap': ('collapse', 'nowrap', 'none'),
         'pre-wrap': ('preserve', 'wrap', 'none'), 'pre-line': ('preserve-breaks', 'wrap', 'none')}
IMAGE = ['none', 'url("#m")', 'url("mask.png")']
POSITION = ['left', 'center', '10px 20%', 'right bottom', '0% 0%', 'left 10px top 20px', '5px', 'center top']
SIZE = ['auto', '50%', '10px 20px', '50% auto', 'cover', 'contain']
REPEAT = ['repeat-x', 'repeat-y', 'repeat', 'no-repeat', 'space round', 'repeat no-repeat']
BOX = ['border-box', 'padding-box', 'content-box', 'margin-box', 'fill-box', 'stroke-box', 'view-box']
COMPOSITE = ['add', 'subtract', 'intersect', 'exclude']


def pick(rng, groups, n=3):
    """Some of the alternatives of 'a || b || c', in the order of the grammar."""
    out = [rng.choice(g) for g in groups if rng.random() < 0.45]
    return ' '.join(out[:n])


def shuffled(rng, parts):
    parts = [p for p in parts if p]
    rng.shuffle(parts)
    return ' '.join(parts)


def shorthand(rng, name):
    """(text, longhand values) of a declaration of the shorthand."""
    if rng.random() < 0.12:
        w = rng.choice(WIDE)
        return w, {k: w for k in LONG[name]}
    if name == 'font':
        parts = [rng.choice(x) if rng.random() < 0.4 else rng.choice(['', '', 'normal', 'Normal']) for x in FONT]
        size, line = rng.choice(FONT_SIZE), rng.choice(LINE) if rng.random() < 0.5 else ''
        family = rng.choice(FAMILY)
        d = {k: 'normal' for k in LONG['font']}
        kept = [x.lower() or 'normal' for x in parts]
        d.update({'font-style': kept[0], 'font-variant-caps': kept[1], 'font-weight': kept[2], 'font-stretch': kept[3], 'font-size': size, 'line-height': line or 'normal', 'font-family': family})
        return shuffled(rng, parts) + ' ' + size + (rng.choice(['/', ' / ']) + line if line else '') + ' ' + family, d
    if name == 'overflow':
        a, b = rng.choice(FLOW), rng.choice(FLOW)
        return (a, {'overflow-x': a, 'overflow-y': a}) if rng.random() < 0.5 else (a + ' ' + b, {'overflow-x': a, 'overflow-y': b})
    if name == 'white-space':
        k = rng.choice(sorted(SPACE))
        return k, dict(zip(LONG[name], SPACE[k]))
    if name == 'font-synthesis':
        k = rng.choice(['none', 'weight', 'style', 'weight style', 'style weight'])
        return k, {'font-synthesis-weight': 'auto' if 'weight' in k else 'none', 'font-synthesis-style': 'auto' if 'style' in k else 'none'}
    if name == 'text-decoration':
        while True:
            v = [rng.choice(['none', pick(rng, [[x] for x in LINES]), 'spelling-error']) if rng.random() < 0.7 else '',
                 rng.choice(['solid', 'double', 'dotted', 'dashed', 'wavy']) if rng.random() < 0.5 else '',
                 rng.choice(COLORS) if rng.random() < 0.5 else '']
            if any(v):
                return shuffled(rng, v), {k: x or 'initial' for k, x in zip(LONG[name], v)}
    if name == 'font-variant':
        while True:
            v = [pick(rng, LIGA), rng.choice(['', rng.choice(CAPS)]), rng.choice(['', '', 'historical-forms', 'stylistic(salt01)']),
                 pick(rng, NUM), pick(rng, ASIAN), rng.choice(['', '', 'sub', 'super'])]
            if any(v) and rng.random() < 0.8:
                return shuffled(rng, v), {k: x or 'normal' for k, x in zip(LONG[name], v)}
            k = rng.choice(['normal', 'none'])
            d = {x: 'normal' for x in LONG[name]}
            d['font-variant-ligatures'] = k
            return k, d
    if name == 'mask':
        while True:
            pos = rng.choice(POSITION) if rng.random() < 0.5 else ''
            size = rng.choice(SIZE) if pos and rng.random() < 0.5 else ''
            boxes = rng.choice(['', '', 1, 2, 'no-clip'])
            o = c = ''
            if boxes == 1:
                o = c = box = rng.choice(BOX)
            elif boxes == 2:
                o, c = rng.choice(BOX), rng.choice(BOX)
                box = o + ' ' + c
            elif boxes == 'no-clip':
                o, c = rng.choice(BOX), 'no-clip'
                box = o + ' ' + c
            else:
                box = ''
            v = [rng.choice(IMAGE) if rng.random() < 0.7 else '', pos, size, rng.choice(REPEAT) if rng.random() < 0.4 else '', o, c,
                 rng.choice(COMPOSITE) if rng.random() < 0.4 else '', rng.choice(['alpha', 'luminance', 'match-source'])
                 if rng.random() < 0.4 else '']
            if any(v):
                place = pos + (rng.choice(['/', ' / ']) + size if size else '')
                return shuffled(rng, [v[0], place, v[3], box, v[6], v[7]]), {k: x or 'initial' for k, x in zip(LONG[name], v)}
    while True:
        slice_ = rng.choice(['25', '10%', '1 2 3 4 fill', '30 fill', '5 10%']) if rng.random() < 0.7 else ''
        width = rng.choice(['10px', 'auto', '1 2px', '50%']) if slice_ and rng.random() < 0.5 else ''
        outset = rng.choice(['1px', '2', '1 2px']) if width and rng.random() < 0.5 else ''
        v = [rng.choice(IMAGE) if rng.random() < 0.7 else '', slice_, width, outset,
             rng.choice(['stretch', 'repeat round', 'space']) if rng.random() < 0.5 else '',
             rng.choice(['alpha', 'luminance']) if rng.random() < 0.4 else '']
        if any(v):
            place = slice_ + (' / ' + width if width else '') + (' / ' + outset if outset else '')
            return ' '.join(x for x in (v[0], place, v[4], v[5]) if x), {k: x or 'initial' for k, x in zip(LONG['mask-border'], v)}


def longhand(rng, name):
    """A declaration of one longhand, with a value from a declaration of its shorthand."""
    while True:
        _, d = shorthand(rng, name)
        k = rng.choice(LONG[name])
        return k, d[k]


def squeeze(v):
    return ''.join(v.split())


def longs(style, names):
    return {n: squeeze(style.get_property_value(n)) for n in names}


def compare(m, tag, style, model, families, ctx):
    for f in families:
        want = {n: squeeze(model[n][0]) if n in model else '' for n in LONG[f]}
        m.eq(tag + '.longhands', longs(style, LONG[f]), want, ctx)
        m.eq(tag + '.priorities', {n: style.get_property_priority(n) for n in LONG[f]},
             {n: model[n][1] if n in model else '' for n in LONG[f]}, ctx)
        m.eq(tag + '.contains', {n: n in style for n in LONG[f]}, {n: n in model for n in LONG[f]}, ctx)
        text = style.get_property_value(f)
        full = all(n in model for n in LONG[f])
        prios = {model[n][1] for n in LONG[f] if n in model}
        if text:
            m.check(tag + '.shorthand-complete', full and len(prios) == 1, (ctx, f, text))
            fresh = CSSStyleDeclaration()
            fresh.set_property(f, text)
            m.eq(tag + '.shorthand-rereads', longs(fresh, LONG[f]), want, (ctx, f, text))
            m.saw(tag + '.text')
        if f != 'font' or full or not prios:
            m.eq(tag + '.shorthand-priority', style.get_property_priority(f), prios.pop() if len(prios) == 1 else '', (ctx, f))
    m.eq(tag + '.length', len(style), len(model), ctx)


def case(m, rng, i):
    kind = ['plain', 'inline', 'rule'][i % 3]
    names = sorted(LONG)
    families = rng.sample(names, rng.choice([1, 1, 2]))
    if 'mask' in families and 'mask-border' in families:
        families = ['mask']           # 'mask' resets 'mask-border' in the style attribute: not covered
    model = {}
    ctx = [kind]
    element = None
    if kind == 'plain':
        style = CSSStyleDeclaration()
    elif kind == 'inline':
        doc = SVGDOMImplementation().create_svg_document()
        element = doc.create_element_ns('http://www.w3.org/2000/svg', 'text')
        style = element.style
    else:
        f = rng.choice(families)
        t, d = shorthand(rng, f)
        p = rng.choice(['', 'important'])
        css = 'a { %s:%s%s; color: red }' % (f, t, '!' + p if p else '')
        style = CSSParser.fromstring(css)[0].style
        model = {k: (v, p) for k, v in d.items()}
        model['color'] = ('red', '')
        ctx.append(css)
        compare(m, 'rule', style, model, families, ctx)
    style['fill'] = 'blue'
    model['fill'] = ('blue', '')
    look = vf.Glances(rng)
    for _ in range(rng.randint(1, 8)):
        f = rng.choice(families)
        op = rng.choice(['shorthand', 'shorthand', 'longhand', 'all', 'drop', 'drop-one', 'reread', 'repeat', 'bad'])
        p = rng.choice(['', '', 'important']) if element is None else ''
        if op == 'shorthand':
            t, d = shorthand(rng, f)
            ctx.append((op, f, t, p))
            style.set_property(f, t, p)
            model.update({k: (v, p) for k, v in d.items()})
            m.state(f, kind, t)
            text = style.get_property_value(f)
            m.check('shorthand.readable', text != '', (ctx, text))
        elif op == 'longhand':
            k, v = longhand(rng, f)
            ctx.append((op, k, v, p))
            style.set_property(k, v, p)
            model[k] = (v, p)
        elif op == 'all':
            _, d = shorthand(rng, f)
            order = list(d)
            rng.shuffle(order)
            for k in order:
                style.set_property(k, d[k], p)
                model[k] = (d[k], p)
            ctx.append((op, [(k, d[k]) for k in order], p))
        elif op == 'drop':
            ctx.append((op, f))
            if rng.random() < 0.3:
                # alone with one longhand
                for k in LONG[f]:
                    style.remove_property(k)
                    model.pop(k, None)
                k, v = longhand(rng, f)
                ctx.append(('longhand', k, v))
                style.set_property(k, v, p)
                if element is not None:
                    m.check('drop.attribute', k in element.get('style'), ctx)
            if rng.random() < 0.5:
                style.remove_property(f)
            else:
                style.set_property(f, '')
            for k in LONG[f]:
                model.pop(k, None)
        elif op == 'drop-one':
            k = rng.choice(LONG[f])
            ctx.append((op, k))
            style.remove_property(k)
            model.pop(k, None)
        elif op == 'bad':
            t = rng.choice(['bogus', 'red', '1px', '10% bogus', 'visible hidden scroll'])
            ctx.append((op, t))
            style.set_property('overflow', t, p)
        elif op == 'repeat':
            text = style.get_property_value(f)
            if not text:
                continue
            ctx.append((op, f, text))
            q = style.get_property_priority(f)
            style.set_property(f, text, q)
        elif element is not None:
            # what the attribute says is what the block says
            fresh = doc.create_element_ns('http://www.w3.org/2000/svg', 'text')
            fresh.set('style', element.get('style', ''))
            element, style = fresh, fresh.style
            ctx.append((op, element.get('style', '')))
        else:
            continue
        if not look(rng):
            continue
        compare(m, op, style, model, families, ctx)
        m.eq('others', style['fill'], 'blue', ctx)
        if element is not None:
            fresh = doc.create_element_ns('http://www.w3.org/2000/svg', 'text')
            fresh.set('style', element.get('style', ''))
            compare(m, 'attribute', fresh.style, model, families, (ctx, element.get('style')))
    compare(m, 'end', style, model, families, ctx)


if __name__ == '__main__':
    vf.main(vf.Spec('C02', case, quick=12000, thorough=200000,
                    rule='plain blocks, style attributes and rules in turn; one or two shorthands, 1 to 8 operations',
                    required=['rule.longhands', 'shorthand.longhands', 'longhand.longhands', 'all.longhands', 'drop.length', 'drop-one.longhands',
                              'repeat.longhands', 'attribute.longhands', 'reread.longhands', 'shorthand.shorthand-rereads'],
                    anchors=['svgpy/css/shorthands.py', 'svgpy/css/__init__.py'],
                    assumptions=['valid declarations only', "'mask' and 'mask-border' are not mixed", "font-kerning and the other properties 'font' resets are not mixed with it"]))
