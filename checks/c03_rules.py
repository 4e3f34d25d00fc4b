"""C03: style sheet rules as objects: what a sheet's text means, and what insertions and deletions leave."""
import re

import vf
from svgpy.css import (CSSFontFaceRule, CSSFontFeatureValuesRule, CSSMediaRule, CSSNamespaceRule, CSSParser, CSSRule, CSSStyleRule,
                       CSSStyleSheet)
from svgpy.window import SVGDOMImplementation, Window

SELECTORS = ['a', '*', '#id', '.c', 'a b', 'a > b', 'a+b', 'a ~ b', 'a, b', '.c.d, #e', '[x]', '[x="1"]', "[x='a  b']", '[x="a;b{c}"]', '[x="it\'s  /* no */"]',
             'a:first-child', 'a:not(.b)', ':nth-child(2n+1)', 'svg|a', '[x~="\u00e9  \u4e00"]', 'a[x="}"] > b', '#a\\:b']
DECLS = [('fill', 'red'), ('stroke', '#abc'), ('stroke-width', '2px'), ('opacity', '0.5'), ('font-size', '12px'), ('color', 'rgb(1, 2, 3)'),
         ('marker-end', 'url("a;b.svg#x")'), ('stroke-dasharray', '1 2 3'), ('display', 'none'), ('fill', 'url("#g") blue'), ('cursor', 'pointer')]
FACE = [('font-family', 'X'), ('font-family', '"A  B"'), ('src', 'url("a.woff")'), ('font-weight', 'bold'), ('font-style', 'italic'), ('font-stretch', 'normal')]
MEDIA = ['screen', 'print', 'screen and (min-width: 10px)', 'not print', 'print, (color)', 'all', '(min-width: 1px) and (max-width: 9px)']
BLOCKS = ['annotation', 'character-variant', 'ornaments', 'styleset', 'stylistic', 'swash']
NOISE = ['@charset "utf-8";', '@supports (x: y) { a { fill: red } }', '@page { margin: 1px }', '@unknown x;', '@unknown {a{}b{}}', '@keyframes k { from { fill: red } }',
         '@layer a, b;', '/* a { fill: red } */', '<!-- -->', '@media screen;', '@font-face;', '@font-feature-values X;']
KINDS = {'style': (CSSStyleRule, CSSRule.STYLE_RULE), 'media': (CSSMediaRule, CSSRule.MEDIA_RULE), 'face': (CSSFontFaceRule, CSSRule.FONT_FACE_RULE),
         'ffv': (CSSFontFeatureValuesRule, CSSRule.FONT_FEATURE_VALUES_RULE), 'ns': (CSSNamespaceRule, CSSRule.NAMESPACE_RULE)}


def squash(t):
    """The text with its white space collapsed outside strings."""
    return ''.join(p if p[:1] in '"\'' else re.sub(r'\s+', ' ', p) for p in re.split(r'("[^"]*"|\'[^\']*\')', t)).strip()


def gen_decls(rng, pool):
    return [rng.choice(pool) + (rng.random() < 0.15,) for _ in range(rng.randint(0, 4))]


def gen_rule(rng, depth):
    r = rng.random()
    if r < 0.5:
        return ('style', rng.choice(SELECTORS), gen_decls(rng, DECLS))
    if r < 0.72 and depth < 4:
        return ('media', rng.choice(MEDIA), [gen_rule(rng, depth + 1) for _ in range(rng.randint(0, 3))])
    if r < 0.82:
        return ('face', gen_decls(rng, FACE))
    if r < 0.94 or depth:
        blocks = []
        for _ in range(rng.randint(0, 4)):
            ds = [(rng.choice(['a', 'b1', 'double-W', 'Salt', '\u00e9']), [rng.choice([0, 1, 2, 17, 99]) for _ in range(rng.choice([0, 1, 1, 2, 3]))])
                  for _ in range(rng.randint(0, 3))]
            ds = [(n, [rng.choice(['1.5', '-1', 'x', '"1"', '1px', '2.0'])]) if rng.random() < 0.15 else (n, vs) for n, vs in ds]
            blocks.append((rng.choice(BLOCKS), ds))
        return ('ffv', rng.choice(['Bongo', 'A B', '"C  D", E']), blocks)
    return ('ns', rng.choice(['', 'svg', 'p', 'SVG', 'xLink', '\u00e9', '_p-1']), rng.choice(['http://www.w3.org/2000/svg', 'urn:x y']), rng.choice(['%s', 'url']))


class Text:
    """Writes rules as text, freely formatted."""
    def __init__(self, rng):
        self.rng = rng
        self.noise = 0

    def ws(self, p=0.5):
        return self.rng.choice(['', ' ', '\n', '  ', '\t', '\r\n ', '/* } */', ' /*x*/ ']) if self.rng.random() < p else ''

    def at(self, name):
        return '@' + self.rng.choice([name, name, name.upper(), name.title()])

    def decls(self, ds):
        out = ''
        for k, (p, v, imp) in enumerate(ds):
            if self.rng.random() < 0.08:
                out += self.rng.choice([';', 'fill red;', ': red;', 'fill;', '@x;', 'a b: c;'])
            out += self.ws() + self.rng.choice([p, p, p.upper()]) + self.ws(0.2) + ':' + self.ws(0.3) + v
            if imp:
                out += self.rng.choice([' !important', '!important', ' ! IMPORTANT'])
            out += ';' if k + 1 < len(ds) or self.rng.random() < 0.5 else ''
            out += self.ws(0.3)
        return '{' + out + '}'

    def selector(self, s):
        return squash(s).replace(' ', self.rng.choice([' ', ' ', '\n', '  ', '\r\n'])) if '"' not in s and "'" not in s else s

    def rule(self, r):
        kind = r[0]
        if kind == 'style':
            return self.selector(r[1]) + self.rng.choice(['', ' ', '\n']) + self.decls(r[2])
        if kind == 'media':
            return self.at('media') + ' ' + r[1] + self.rng.choice(['', ' ']) + '{' + self.rules(r[2], True) + '}'
        if kind == 'face':
            return self.at('font-face') + self.ws(0.3) + self.decls(r[1])
        if kind == 'ffv':
            out = ''
            for name, ds in r[2]:
                if self.rng.random() < 0.1:
                    out += self.rng.choice(['@foo { a: 1; }', '@foo;', 'x { a: 1; }', '@swash;'])
                body = ''
                for k, (n, vs) in enumerate(ds):
                    body += self.ws(0.3) + n + self.ws(0.2) + ':' + ''.join(' %s' % v for v in vs) + self.ws(0.2)
                    body += ';' if k + 1 < len(ds) or self.rng.random() < 0.6 else ''
                out += self.at(name) + self.ws(0.3) + '{' + body + self.ws(0.2) + '}' + self.ws(0.4)
            return self.at('font-feature-values') + ' ' + r[1] + self.rng.choice(['', ' ']) + '{' + self.ws(0.3) + out + '}'
        uri = '"%s"' % r[2] if r[3] == '%s' else 'url("%s")' % r[2]
        return '%s %s%s;' % (self.at('namespace'), r[1] + ' ' if r[1] else '', uri)

    def rules(self, rs, nested=False):
        out = ''
        for r in rs:
            out += self.ws()
            if self.rng.random() < 0.12:
                n = self.rng.choice(NOISE)
                if not (nested and n in ('<!-- -->',)):
                    out += n
                    self.noise += 1
            out += self.ws(0.3) + self.rule(r)
        return out + self.ws()


def expect_decls(ds):
    out = {}
    for p, v, imp in ds:
        if p in out and out[p][1] and not imp:
            continue
        out.pop(p, None)
        out[p] = (v, 'important' if imp else '')
    return out


def compare(m, tag, rules, want, sheet, parent, ctx, top_parent=False):
    m.eq(tag + '.kinds', [type(r).__name__ for r in rules], [KINDS[w[0]][0].__name__ for w in want], ctx)
    for r, w in zip(rules, want):
        m.eq(tag + '.type', r.type, KINDS[w[0]][1], (w, ctx))
        m.check(tag + '.parent', r.parent_rule is parent, (w, ctx))
        m.check(tag + '.sheet', r.parent_style_sheet is sheet, (w, ctx))
        if w[0] == 'style':
            m.eq(tag + '.selector', squash(r.selector_text.replace('2n/**/+1', '2n+1')), squash(w[1]).replace("'a  b'", '"a  b"'), (w, ctx))
            m.check(tag + '.spaces', r.selector_text == squash(r.selector_text) or '\t' in r.selector_text or '\f' in r.selector_text,
                    (r.selector_text, ctx))
        if w[0] in ('style', 'face'):
            decls = expect_decls(w[-1])
            m.eq(tag + '.declarations', {k: (v, r.style.get_property_priority(k)) for k in r.style.keys()
                                         for v in [r.style.get_property_value(k)]}, decls, (w, ctx))
            m.check(tag + '.style-parent', r.style.parent_rule is r, (w, ctx))
        elif w[0] == 'media':
            m.eq(tag + '.media', r.media.media_text, w[1], (w, ctx))
            m.eq(tag + '.condition', r.condition_text, w[1], (w, ctx))
            compare(m, tag, r.css_rules, w[2], sheet, r, ctx)
            m.saw('nested', len(w[2]))
        elif w[0] == 'ffv':
            m.eq(tag + '.family', squash(r.font_family), squash(w[1]), (w, ctx))
            for name in BLOCKS:
                d = {}
                for block, ds in w[2]:
                    if block == name:
                        d.update({n: vs for n, vs in ds if vs and isinstance(vs[0], int)})
                got = getattr(r, name.replace('-', '_'))
                m.eq(tag + '.features', {n: got[n] for n in got.keys()}, d, (w, ctx))
        elif w[0] == 'ns':
            m.eq(tag + '.namespace', (r.prefix, r.namespace_uri), (w[1], w[2]), (w, ctx))


def check_text(m, rules, want, ctx):
    """css_text is the text of an equal rule."""
    for r, w in zip(rules, want):
        again = CSSParser.fromstring(r.css_text)
        compare(m, 'css-text', again, [w], None, None, (r.css_text, ctx))


def esc(t):
    return t.replace('&', '&amp;').replace('<', '&lt;').replace('\r', '&#13;')


def case(m, rng, i):
    want = [gen_rule(rng, 0) for _ in range(rng.randint(0, 5))]
    text = Text(rng)
    src = text.rules(want)
    how = rng.choice(['string', 'sheet', 'sheet', 'element', 'cut'])
    if how == 'cut' and want and want[-1][0] != 'ns':
        src = src[:src.rindex('}')] if src.rstrip().endswith('}') else src
    m.saw('noise', text.noise)
    sheet = None
    if how in ('string', 'cut'):
        rules = CSSParser.fromstring(src)
    elif how == 'sheet':
        sheet = CSSStyleSheet()
        rules = sheet.css_rules
        rules.extend(CSSParser.fromstring(src, parent_style_sheet=sheet))
    else:
        win = Window(SVGDOMImplementation())
        root = win.document.implementation.parser.fromstring('<svg xmlns="http://www.w3.org/2000/svg"><style>%s</style></svg>' % esc(src))
        win.document.replace_child(root, win.document.document_element)
        e = win.document.document_element[0]
        sheet = e.sheet
        if not src.strip():
            m.check('element.empty', sheet is None or not sheet.css_rules, src)
            return
        m.check('element.owner', sheet.owner_node is e, src)
        rules = sheet.css_rules
        inner = win.document.style_sheets[-1]
        compare(m, 'document', inner.css_rules, want, inner, None, src)
    compare(m, how, rules, want, sheet, None, (how, src))
    check_text(m, rules, want, (how, src))
    m.state(how, repr(want))
    if sheet is None:
        return
    log = []
    look = vf.Glances(rng)
    for _ in range(rng.randint(1, 6)):
        # a sheet or a media rule in it, and its model
        place, model = sheet, want
        while True:
            inner = [k for k, w in enumerate(model) if w[0] == 'media']
            if not inner or rng.random() < 0.4:
                break
            k = rng.choice(inner)
            place, model = place.css_rules[k], model[k][2]
        if place is not sheet:
            m.saw('group')
        r = rng.random()
        if r < 0.5:
            w = gen_rule(rng, 1)
            k = rng.randint(0, len(model))
            t = Text(rng).rule(w)
            log.append(('insert', t, k))
            m.eq('insert.index', place.insert_rule(t, k), k, (src, log))
            model.insert(k, w)
            new = place.css_rules[k]
            m.check('insert.parent', new.parent_rule is (None if place is sheet else place), (src, log))
        elif model and r < 0.85:
            k = rng.randrange(len(model))
            log.append(('delete', k))
            gone = place.css_rules[k]
            place.delete_rule(k)
            del model[k]
            m.check('delete.gone', all(x is not gone for x in place.css_rules), (src, log))
        elif place is not sheet and r < 0.93:
            pass
        else:
            k = len(model) + rng.randint(0, 3)
            log.append(('delete-beyond', k))
            m.raises('delete.beyond', IndexError, lambda: place.delete_rule(k), (src, log))
        if look(rng):
            compare(m, 'after', sheet.css_rules, want, sheet, None, (src, log))
    compare(m, 'after', sheet.css_rules, want, sheet, None, (src, log))
    m.state('history', [x[0] for x in log], len(want))


if __name__ == '__main__':
    vf.main(vf.Spec('C03', case, quick=20000, thorough=300000,
                    rule='sheets of style, media (nested four deep), font-face, font-feature-values and namespace rules with noise between, '
                         'freely formatted, read as text, sheet or style element; then insertions and deletions at any depth',
                    required=['string.kinds', 'sheet.selector', 'element.declarations', 'document.kinds', 'cut.kinds', 'css-text.declarations', 'after.kinds',
                              'after.features', 'insert.index', 'delete.gone', 'delete.beyond', 'nested', 'noise', 'group'],
                    anchors=['svgpy/css/__init__.py'],
                    assumptions=['each inserted text is one valid rule', 'feature value names differ in more than case']))
