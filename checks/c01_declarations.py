"""C01: CSS declaration blocks and the style attribute."""
import gc
import re

import vf
from svgpy import SVGParser
from svgpy.css import CSSParser, CSSStyleDeclaration
from svgpy.exception import NoModificationAllowedError
from svgpy.window import SVGDOMImplementation

NAMES = ['fill', 'stroke', 'stroke-width', 'opacity', 'color', 'display', 'visibility', 'transform-origin', 'cursor', 'content',
         'foo', 'foo-bar', '--a', '--A', '--b-c', 'marker-end', 'stop-color', 'quotes']
VALUES = ['red', '#fFf', '1', '-.5px', '10%', 'none', 'inline', '0 0', '50% 10px', 'url(#a)', "url('x;y')", 'url("a:b")', '"a;b"', "'q:\"r'",
          'rgb(1,2,3)', 'rgb(0 0 0 / 50%)', 'calc(1px + 2em)', 'a b  c'.replace('  ', ' '), 'f(g(1;2))', '[x;y]', '"\\"z;"', '"/* no */"',
          'Arial, "B; C"', '"a!important"', 'a\\;b', '\\"c', 'd\\)', '\u00e9t\u00e9', 'a/b', '1,2 3', 'inherit', 'revert']
WIDE = ['INHERIT', 'Initial', 'UNSET', 'CurrentColor', 'TRANSPARENT']
SPACED = ['  red ', '\n1px\t', 'a\n b', '\ta b\f', '\f1', ' none\r\n', 'a \r b  c']


CANON = {'url(#a)': 'url("#a")', "url('x;y')": 'url("x;y")', "'q:\"r'": '"q:\\"r"'}


def canon(x):
    """Values up to the quoting of strings and addresses."""
    if isinstance(x, dict):
        return {k: canon(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return type(x)(canon(v) for v in x)
    return CANON.get(x, x)


def attribute(rng, custom=True):
    """(text, model, ordered names) of a style attribute."""
    out, model = [], {}
    for _ in range(rng.randint(0, 5)):
        n, v = rng.choice(NAMES), rng.choice(VALUES).strip()
        if not custom and n.startswith('--'):
            n = 'foo'           # the installed tinycss2 does not know custom properties
        imp = rng.random() < 0.25
        w = n if n.startswith('--') or rng.random() < 0.8 else n.upper()
        s = '%s%s:%s%s' % (w, rng.choice(['', ' ']), rng.choice(['', ' ', '\n ']), v)
        if custom and rng.random() < 0.12:
            s += rng.choice(['/* ; */', ' /* a: b; */', '/*)*/', '/* " */'])
        if imp:
            s += rng.choice([' !important', '!important', ' ! important', ' !IMPORTANT'])
        if custom and rng.random() < 0.15:
            # no declaration at all
            out.append(rng.choice([')', ']', '}', ' ) ) ', 'x }', '/* a;b:c */', "/* it's */", 'fill', ':', ': red', 'stroke :', '', 'a\\;b', '\\(']))
        if custom and rng.random() < 0.1:
            s = rng.choice(['/* x: y; */', '/**/', '/*"*/']) + s
        out.append(s)
        if n in model and model[n][1] and not imp:
            continue
        model[n] = (v, 'important' if imp else '')
    text = rng.choice([';', '; ', ' ;\n']).join(out)
    if out and rng.random() < 0.5:
        text += ';'
    return text, model


def read_attribute(text):
    """Splits a style attribute at its top-level semicolons and colons."""
    items, depth, quote, cur = [], 0, '', ''
    i = 0
    while i < len(text):
        c = text[i]
        if c == '\\':
            cur += text[i:i + 2]
            i += 2
            continue
        if quote:
            if c == quote:
                quote = ''
        elif c in '"\'':
            quote = c
        elif c in '([{':
            depth += 1
        elif c in ')]}':
            depth -= 1
        elif c == ';' and depth == 0:
            items.append(cur)
            cur = ''
            i += 1
            continue
        cur += c
        i += 1
    items.append(cur)
    d = {}
    for item in items:
        if not item.strip():
            continue
        n, _, v = item.partition(':')
        n, v = n.strip(), v.strip()
        v = re.sub(r'\s*!\s*important$', '', v, flags=re.I)
        assert n not in d, text
        d[n if n.startswith('--') else n.lower()] = v
    return d


def spelled(rng, n):
    return n if n.startswith('--') or rng.random() < 0.7 else n.upper()


def compare(m, name, style, model, rng, ctx, order=None):
    m.eq(name + '.length', (style.length, len(style)), (len(model),) * 2, ctx)
    m.eq(name + '.names', sorted(style), sorted(model), ctx)
    m.eq(name + '.items', canon(dict(style.items())), canon(model), ctx)
    m.eq(name + '.views', (sorted(style.keys()), sorted(canon(list(style.values())))), (sorted(model), sorted(canon(list(model.values())))), ctx)
    m.eq(name + '.item', [style.item(k) for k in range(len(style))], list(style), ctx)
    if order is not None:
        m.eq(name + '.order', list(style), order, ctx)
    for n in NAMES:
        w = spelled(rng, n)
        v, p = model.get(n, ('', ''))
        m.eq(name + '.value', canon((style.get_property_value(w), style[w], style.get_property_priority(w), w in style)),
             (canon(v), canon(v), p, n in model), (ctx, w))


def put(model, order, n, v, p):
    model[n] = (v, p)
    if n in order:
        order.remove(n)
    order.append(n)


def case(m, rng, i):
    kind = ['plain', 'rule', 'inline', 'inline'][i % 4]
    log = [kind]
    element = other = None
    if kind == 'plain':
        style, model = CSSStyleDeclaration(), {}
    elif kind == 'rule':
        text, model = attribute(rng, False)
        rules = CSSParser.fromstring('%s { %s }' % (rng.choice(['g', 'a > b, .c', '@font-face']), text))
        m.eq('rule.count', len(rules), 1, text)
        style = rules[0].style
        m.check('rule.parent', style.parent_rule is rules[0], text)
        log.append(text)
    else:
        doc = SVGDOMImplementation().create_svg_document()
        element = doc.create_element_ns('http://www.w3.org/2000/svg', rng.choice(['g', 'rect', 'text']))
        other = doc.create_element_ns('http://www.w3.org/2000/svg', 'g')
        other.set('style', 'fill: red; --a: 1;')
        text, model = attribute(rng)
        if rng.random() < 0.7:
            element.set('style', text)
        else:
            text, model = '', {}
        style = element.style
        log.append(text)
    order = list(model) if kind == 'plain' else None
    compare(m, 'start', style, model, rng, log, order)
    look = vf.Glances(rng)
    steps = rng.randint(2, 12)
    for step in range(steps):
        op = rng.choice(['set', 'set', 'set', 'item', 'remove', 'del', 'empty', 'attr', 'unattr', 'badpriority', 'readonly', 'lone'])
        n = rng.choice(NAMES)
        w = spelled(rng, n)
        v = rng.choice(VALUES + WIDE) if rng.random() < 0.95 else rng.choice(SPACED)
        if op in ('attr', 'unattr') and element is None:
            op = 'set'
        log.append((op, w, v))
        want = ' '.join(v.split()) if v in SPACED else v
        want = want.lower() if want in WIDE else want
        if op == 'set':
            p = rng.choice([None, None, '', 'important', 'IMPORTANT'])
            log[-1] += (p,)
            style.set_property(w, v, p) if p is not None or rng.random() < 0.5 else style.set_property(w, v)
            p = model.get(n, ('', ''))[1] if p is None else p.lower()
            model[n] = (want, p)
            if order is not None:
                put(model, order, n, want, p)
        elif op == 'item':
            style[w] = v
            p = model.get(n, ('', ''))[1]
            model[n] = (want, p)
            if order is not None:
                put(model, order, n, want, p)
        elif op in ('remove', 'del', 'empty'):
            if op == 'remove':
                m.eq('remove.value', canon(style.remove_property(w)), canon(model.get(n, ('', ''))[0]), log)
            elif op == 'del':
                del style[w]
            elif rng.random() < 0.5:
                style.set_property(w, rng.choice(['', ' ', '\n']))
            else:
                style[w] = ''
            if n in model:
                del model[n]
                if order is not None:
                    order.remove(n)
        elif op == 'attr':
            text, model = attribute(rng)
            log[-1] = ('attr', text)
            if rng.random() < 0.5:
                element.set('style', text)
            else:
                element.attributes['style'] = text
        elif op == 'unattr':
            if 'style' in element.attrib:
                if rng.random() < 0.5:
                    element.remove_attribute('style')
                else:
                    del element.attributes['style']
            model = {}
        elif op == 'badpriority':
            style.set_property(w, v, rng.choice(['unknown', '!important', 'i']))
        elif op == 'readonly':
            style.readonly = True
            before = dict(style.items())
            m.raises('readonly', NoModificationAllowedError, lambda: style.set_property(w, v), log)
            m.raises('readonly', NoModificationAllowedError, lambda: style.remove_property(w), log)
            m.raises('readonly', NoModificationAllowedError, lambda: style.__setitem__(w, v), log)
            m.raises('readonly', NoModificationAllowedError, lambda: style.__delitem__(w), log)
            m.raises('readonly', NoModificationAllowedError, lambda: style.set_property(w, ''), log)
            m.eq('readonly.unchanged', dict(style.items()), before, log)
            style.readonly = False
        elif op == 'lone':
            gc.collect() if rng.random() < 0.02 else None
        m.state(kind, op, min(len(model), 4), n in model)
        if not look(rng) and step < steps - 1:
            continue
        compare(m, op, style, model, rng, log, order)
        if element is not None:
            text = element.get('style')
            m.check('attribute.absent', bool(model) or text is None or op in ('attr', 'readonly', 'lone', 'badpriority', 'unattr') or
                    read_attribute(text) == {}, (log, text))
            if op == 'attr' or text is None:
                m.check('attribute', op == 'attr' or not model, (log, text))
            elif log[-1][0] not in ('readonly', 'lone', 'badpriority'):
                if changed(log):
                    m.eq('attribute', canon(read_attribute(text)), canon({k: x[0] for k, x in model.items()}), (log, text))
                fresh = doc.create_element_ns('http://www.w3.org/2000/svg', 'g')
                fresh.set('style', text)
                m.eq('attribute.reread', canon({k: x[0] for k, x in fresh.style.items()}), canon({k: x[0] for k, x in model.items()}), (log, text))
            m.eq('isolated', (other.get('style'), dict(other.style.items())),
                 ('fill: red; --a: 1;', {'fill': ('red', ''), '--a': ('1', '')}), log)


def changed(log):
    """True if the style attribute was written by the declaration block since it was set (it then holds each name once)."""
    for e in reversed(log):
        if isinstance(e, str) or e[0] == 'attr':
            return False
        if e[0] in ('set', 'item'):
            return True
    return False


if __name__ == '__main__':
    vf.main(vf.Spec('C01', case, quick=8000, thorough=60000,
                    rule='plain blocks, blocks of rules and style attributes in turn; 2 to 12 operations each',
                    required=['start.value', 'set.value', 'remove.value', 'attr.items', 'attribute', 'attribute.reread', 'isolated', 'readonly',
                              'unattr.length', 'set.order'],
                    anchors=['svgpy/css/__init__.py'],
                    assumptions=['properties without shorthands (see C02)', 'priorities are not written to the style attribute']))
