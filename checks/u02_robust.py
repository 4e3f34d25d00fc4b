"""U02: any text is read or refused: the errors that are documented, the same answer twice, in time linear in the text, nothing left behind."""
import time

import vf
from cssselect import ExpressionError, SelectorSyntaxError
from lxml import etree
from svgpy import SVGParser
from svgpy.core import SVGLength
from svgpy.css import CSS, CSSParser, CSSStyleDeclaration
from svgpy.css.types import CSSNumericValue, CSSStyleValue
from svgpy.exception import DOMException
from svgpy.path import PathParser
from svgpy.transform import SVGTransformList
from svgpy.url import URL, URLSearchParams
from svgpy.window import SVGDOMImplementation, Window

SVG = 'http://www.w3.org/2000/svg'
SEEDS = {
    'path': ['M10 20h-5.5v1e3C1,2 3,4 5,6s1 2 3 4Q1 2 3 4t5 6A1 2 30 0 1 5 6B40zm1 1', 'M0 0L1-2.5.5'],
    'transform': ['translate(1 2) rotate(30, 1, 2) scale(2)', 'matrix(1 0 0 1 2 3),skewX(3)skewY(1)'],
    'media': ['screen and (min-width: 100px), not print', '(400px <= width < 700px) or (orientation: landscape)', 'only all and (aspect-ratio: 16/9)',
              'not ((color) and (width: 1em))'],
    'length': ['10px', '1e3%', '-.5em', '12pt', 'auto', '3vmin'],
    'url': ['http://a:b@h.example:80/p/../q;x?a=b&c#f', 'data:text/css,a%20b', 'file:///x/y', 'http://[::1]:8/', 'about:blank', '../a?b#c'],
    'params': ['a=b&c=d+e&f&=g&%20=%zz'],
    'css': ['@import url("data:text/css,a{}") screen; @namespace svg url(x); @media (min-width: 1px) { g > .a:not(#b) { fill: red !important; } } '
            '@font-face { font-family: x; src: url(a) } /* c */', 'a{fill:red}b{x:y}'],
    'style': ['fill: red; font: 12px/2 serif !important; --a: {b}; marker: url(#m)',
              'overflow: hidden; white-space: pre; mask: url(a) 1px 2px; font-variant: small-caps'],
    'value': ['calc(1px + 2em * (3 - 1))', 'min(1px, 2%)', 'var(--a, 1px)', 'url(a)', '12px', 'red', '#abc', 'inherit'],
    'selector': ['g > .a:not(#b), [x|="y"] ~ rect:nth-child(2n+1)', 'svg|g', '*:first-child'],
    'xml': ['<svg xmlns="%s"><g id="a">x<!-- c --><?p q?></g>&amp;</svg>' % SVG]}
PIECES = (list('(){}[]<>;:,.+-*/\\"\'#@!%&=~|^$ \t\n0123456789eEaAzZMmLlcCqQ\u00e9\u2028\U0001d54f') +
          ['url(', '/*', '*/', 'calc(', '1e999', 'nan', 'inf', '1e-400', '  ', '!important', 'var(', '\\0', '-', '--', '\r', 'not ', 'and ', 'or ', '\x00', '\x0c'])
LONG = ['a', '(', ' ', '1 ', '1,', '.', '-', '+', 'e', '%', '\\', '"', "'", ':', ';', '#', '/*', '@a', 'a,', '1px ', '/../', '?', '&', '=', '*', '>', '!', 'M', 'm1',
        'A1 1 1 1', '0', '1.', '(a<', '{}', '()', '*/', '<!--', 'not ', '\t \n', '\u00e9']
HEADS = ['', 'M0 0 ', 'g{fill:', 'calc(', 'screen and (', 'http://h/', 'url(', 'matrix(', 'a:', 'font: ', '"', '[']


def text_of(rng, kind):
    if rng.random() < 0.06:
        head, u = rng.choice(HEADS), rng.choice(LONG)
        n = 30 if u in '([{' or '(' in u else 1500 // len(u)
        if kind == 'selector' or kind == 'value' and u in '+-':
            n = 30
        return head + u * n
    t = list(rng.choice(SEEDS[kind] if rng.random() < 0.85 else SEEDS[rng.choice(sorted(SEEDS))]))
    for _ in range(rng.choice([0, 1, 1, 2, 3, 6])):
        k, p = rng.randrange(6), rng.randint(0, len(t))
        if k == 0:
            t.insert(p, rng.choice(PIECES))
        elif k == 1 and t:
            del t[min(p, len(t) - 1)]
        elif k == 2:
            t[p:rng.randint(p, len(t))] = []
        elif k == 3:
            t[p:p] = t[p:rng.randint(p, len(t))] * rng.choice([1, 1, 2])
        elif k == 4 and t:
            t[min(p, len(t) - 1)] = rng.choice(PIECES)
        else:
            s = rng.choice(SEEDS[rng.choice(sorted(SEEDS))])
            a = rng.randint(0, len(s))
            t[p:p] = list(s[a:a + rng.randint(1, 12)])
    return ''.join(t)[:1500]


def short(x):
    return repr(x)


def rules(css_rules):
    return [(type(r).__name__, getattr(r, 'css_text', None) if not hasattr(r, 'css_rules') else rules(r.css_rules)) for r in css_rules]


class World(object):
    def __init__(self):
        self.impl = SVGDOMImplementation()
        self.win = Window(self.impl)
        self.doc = self.win.document
        self.root = self.doc.document_element
        for n in ('g', 'rect', 'text', 'path', 'g', 'polygon', 'use', 'ellipse', 'linearGradient', 'tspan'):
            self.root.append(self.doc.create_element_ns(SVG, n))

    def state(self):
        return self.doc.tostring(), self.win.location.href, self.win.inner_width


W = World()
SETTABLE = ['protocol', 'username', 'password', 'host', 'hostname', 'port', 'pathname', 'search', 'hash', 'href']


def attribute(name, extra=None):
    def run(t, pick):
        e = list(W.root)[pick % len(W.root)]
        try:
            e.set(name, t)
        except ValueError:
            return 'not XML'
        try:
            style = e.get_computed_style()
            out = [(k, str(style[k])) for k in sorted(style)]
            return out + [short(extra(e))] if extra else out
        finally:
            del e.attrib[name]
    return run


def text(v):
    return None if v is None else v.tostring()


def styles(t, pick):
    d = CSSStyleDeclaration()
    for part in t.split(';'):
        if ':' in part:
            k, v = part.split(':', 1)
            d.set_property(k.strip(), v.strip())
    return d.items() and sorted((k, str(v)) for k, v in d.items())


def setter(t, pick):
    u = URL('http://user:pw@host.example:81/a/b?c=d#e')
    before = u.href
    try:
        setattr(u, SETTABLE[pick % len(SETTABLE)], t)
    except Exception:
        if u.href != before:
            raise AssertionError('%r became %r' % (before, u.href))
        raise
    URL(u.href)
    return u.href


def sheet(t, pick):
    return rules(CSSParser.fromstring(t))


def select(t, pick):
    return [e.tag for e in W.root.query_selector_all(t)]


def document(t, pick):
    return SVGParser().fromstring(t).tostring()


NEVER = ()
REFUSED = (ValueError,)
SELECTOR = (SelectorSyntaxError, ExpressionError, etree.XPathError, ValueError, DOMException)
TARGETS = {
    'path': ('path', lambda t, k: short([(s.type, s.values) for s in PathParser.parse(t)]), NEVER),
    'transform': ('transform', lambda t, k: short([(x.type, x.angle, x.matrix.tostring()) for x in SVGTransformList.parse(t)]), (ValueError, TypeError)),
    'media': ('media', lambda t, k: W.win.match_media(t).matches, NEVER),
    'length': ('length', lambda t, k: short(SVGLength(t).tostring()), REFUSED),
    'url': ('url', lambda t, k: URL(t).href, REFUSED),
    'reference': ('url', lambda t, k: URL(t, 'http://a/b/c').href, REFUSED),
    'url-setter': ('url', setter, REFUSED),
    'params': ('params', lambda t, k: sorted(URLSearchParams({t: t}).tostring()), NEVER),
    'css': ('css', sheet, NEVER),
    'declarations': ('style', styles, REFUSED),
    'numeric': ('value', lambda t, k: text(CSSNumericValue.parse(t)), REFUSED),
    'typed': ('value', lambda t, k: text(CSSStyleValue.parse(['fill', 'width', 'opacity', '--a', 'marker-end'][k % 5], t)), REFUSED),
    'supports': ('value', lambda t, k: CSS.supports(['fill', 'width', 'opacity', 'color'][k % 4], t), NEVER),
    'escape': ('value', lambda t, k: CSS.escape(t), NEVER),
    'selector': ('selector', select, SELECTOR),
    'xml': ('xml', document, (etree.XMLSyntaxError, ValueError)),
    'style-attribute': ('style', attribute('style'), REFUSED),
    'font': ('style', attribute('font'), REFUSED),
    'fill': ('value', attribute('fill'), NEVER),
    'transform-attribute': ('transform', attribute('transform'), NEVER),
    'd': ('path', attribute('d'), NEVER),
    'points': ('path', attribute('points'), NEVER),
    'class': ('style', attribute('class', lambda e: list(e.class_list)), NEVER),
    'view-box': ('length', attribute('viewBox'), NEVER),
    'alignment': ('value', attribute('preserveAspectRatio'), NEVER),
    'display': ('value', attribute('display'), NEVER),
    'language': ('value', attribute('lang'), NEVER),
    'visibility': ('value', attribute('visibility'), NEVER),
    'text-anchor': ('value', attribute('text-anchor'), NEVER),
    'size': ('length', attribute('font-size'), REFUSED)}
LIMIT = 5.0


def outcome(m, name, f, t, pick, allowed):
    start = time.process_time()
    try:
        got = ('value', f(t, pick))
    except allowed as e:
        if isinstance(e, AssertionError):
            raise
        got = ('refused', type(e).__name__)
    except AssertionError as e:
        m.check('kept', False, lambda: (name, t, pick, str(e)))
    except Exception as e:
        if type(e) in (vf.Violation, vf.Known):
            raise
        m.check('outcome', False, lambda: (name, t, pick, type(e).__name__, str(e)[:300]))
    spent = time.process_time() - start
    m.check('time', spent < LIMIT, lambda: (name, t, pick, spent))
    m.saw('outcome')
    return got


def case(m, rng, i):
    before = W.state()
    for _ in range(12):
        name = rng.choice(sorted(TARGETS))
        kind, f, allowed = TARGETS[name]
        t, pick = text_of(rng, kind), rng.randrange(20)
        m.event(name, t[:60], pick)
        a = outcome(m, name, f, t, pick, allowed)
        b = outcome(m, name, f, t, pick, allowed)
        m.check('again', a == b, lambda: (name, t, pick, a, b))
        m.saw(name)
        m.saw('refused' if a[0] == 'refused' else 'read')
        m.state(name, a[0], t[:40])
    m.check('left-behind', W.state() == before, lambda: (before, W.state()))


if __name__ == '__main__':
    vf.main(vf.Spec(
        'U02', case, quick=3000, thorough=100000,
        rule='texts are mutated from valid ones of the kind (or another), or long runs of one piece; a state is the reader, its outcome and the start of the text',
        required=['outcome', 'again', 'time', 'left-behind', 'refused', 'read'] + sorted(TARGETS),
        anchors=['svgpy/path.py', 'svgpy/transform.py', 'svgpy/css/__init__.py', 'svgpy/css/types.py', 'svgpy/css/mediaquery.py', 'svgpy/url.py', 'svgpy/core.py',
                 'svgpy/dom.py', 'svgpy/utils.py'],
        assumptions=['texts of at most some 1500 characters, brackets nested at most 30 deep', '%g s of processor time' % LIMIT]))
