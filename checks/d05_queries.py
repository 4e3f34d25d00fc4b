"""D05: element queries against a brute-force walk over the tree, between mutations."""
import vf
import selmodel
from selmodel import SVG, tag, split, complex_, compound
from svgpy.element import SVGParser, SVGSVGElement
from svgpy.window import SVGDOMImplementation

P = 'http://p.example/ns'
TAGS = ['rect', 'g', 'path', 'text', 'svg', 'a', 'foo', 'tspan', 'linearGradient', 'é', 'x-y']
IDS = ['a', 'b', 'c', 'long-id', 'É', 'A']
CLASSES = ['a', 'b', 'ab', 'a-b', 'x', 'B', 'b_1', '日本']
ODD = ['a.b', 'a+', '(b', 'x*', "it's", '"q"', '[x]', '$', '^a', '\\d', 'a|b', '{0}', '%s', 'b\u00a0x']
ATTRS = {'fill': ['red', 'blue', 'none', 'red blue'], 'lang': ['en', 'en-US', 'fr', 'en-'], 'data-k': ['v1', 'v2', 'a b c', 'v'],
         'x': ['1', '10', '2']}
GEN = selmodel.Gen(TAGS[:7] + ['linearGradient'], IDS, CLASSES, ATTRS, (None, None, None, SVG, P))


def attributes(rng, e):
    if rng.random() < 0.5:
        e.set('id', rng.choice(IDS))
    if rng.random() < 0.7:
        ts = [rng.choice(CLASSES if rng.random() < 0.7 else ODD) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
        s = rng.choice(['', ' ', '\t'])
        for t in ts:
            s += t + rng.choice([' ', '\n', '\t', '  ', '\r'])
        e.set('class', s)
    for k in sorted(ATTRS):
        if rng.random() < 0.25:
            e.set(k, rng.choice(ATTRS[k]))


def build(rng, doc):
    root = doc.document_element
    attributes(rng, root)
    pool = [root]
    for k in range(rng.randint(1, 16)):
        p = rng.choice(pool[-4:] if rng.random() < 0.7 else pool)
        ns = rng.choice([SVG, SVG, SVG, None, P])
        if rng.random() < 0.1:
            p.append(doc.create_comment('rect'))
        e = doc.create_element_ns(ns, rng.choice(TAGS)) if ns != P else \
            doc.create_element_ns(ns, rng.choice(TAGS), nsmap={'p': P})
        p.append(e)
        attributes(rng, e)
        pool.append(e)
        if rng.random() < 0.2:
            e.text = rng.choice([' ', 'rect', '\n'])
    return pool


def walk(e):
    out = [e]
    for c in e:
        if tag(c) is not None:
            out += walk(c)
    return out


def classes(e):
    s = e.get('class') or ''
    for ch in '\t\n\r\x0c':
        s = s.replace(ch, ' ')
    return [x for x in s.split(' ') if x]


def prefixed(e):
    return (e.prefix + ':' if e.prefix else '') + split(e.tag)[1]


def same(m, name, got, want, ctx):
    m.check(name, len(got) == len(want) and all(a is b for a, b in zip(got, want)), lambda: (got, want, ctx))


def queries(m, rng, doc, e, ctx):
    """e is an element or the document"""
    whole = e is doc
    root = doc.document_element
    start = root if whole else e
    below = walk(start) if whole or isinstance(e, SVGSVGElement) else walk(start)[1:]
    # by id
    k = rng.choice(IDS)
    if whole or isinstance(e, SVGSVGElement):
        want = next((x for x in walk(start) if x.get('id') == k), None)
        m.check('by-id', e.get_element_by_id(k) is want, lambda: (k, ctx))
    # by class
    ks = [rng.choice(CLASSES if rng.random() < 0.6 else ODD) for _ in range(rng.choice([1, 1, 2]))]
    present = [c for x in below for c in classes(x)]
    if present and rng.random() < 0.5:
        ks[0] = rng.choice(present)
    if rng.random() < 0.1 and present:
        # a long list, with or without one class no element has
        ks = [rng.choice(below).get('class') or 'a' for _ in range(rng.randint(8, 14))]
        ks = [c for k in ks for c in k.split()] + [rng.choice(present)] * 9
        x = rng.choice([x for x in below if classes(x)])
        if rng.random() < 0.7:
            ks = classes(x) * rng.randint(1, 12)
        if rng.random() < 0.5:
            ks.append('no-such-class')
    q = rng.choice(['', ' ']) + rng.choice([' ', '\t', '\n ']).join(ks) + rng.choice(['', ' '])
    ns = rng.choice([None, {'p': P}])
    keep = dict(ns) if ns else None
    same(m, 'by-class', e.get_elements_by_class_name(q, ns), [x for x in below if set(ks) <= set(classes(x))], (q, ctx))
    m.eq('nsmap', ns, keep, ctx)
    same(m, 'by-class', e.get_elements_by_class_name(rng.choice(['', ' ', '\t'])), [], ctx)
    # by tag
    t = rng.choice(TAGS + ['*', 'p:rect', 'p:g'])
    same(m, 'by-tag', e.get_elements_by_tag_name(t), [x for x in below if t == '*' or prefixed(x) == t], (t, ctx))
    t = rng.choice(TAGS + ['*'])
    ns = rng.choice([SVG, P, '*', SVG, ''])
    same(m, 'by-tag-ns', e.get_elements_by_tag_name_ns(ns, t),
         [x for x in below if t in ('*', split(x.tag)[1]) and ns in ('*', split(x.tag)[0] or '')], (ns, t, ctx))
    if not whole:
        same(m, 'by-local-name', e.get_elements_by_local_name(t), [x for x in walk(e)[1:] if split(x.tag)[1] == t], (t, ctx))
    # selectors
    if whole or e is root:
        sels = [GEN.selector(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
        want = [x for x in walk(root) if any(complex_(s, x, root) for s in sels)]
        name = 'selector'
    else:
        # a compound selector; whether the element itself counts is not fixed here
        sels = [[GEN.compound(rng)] for _ in range(rng.choice([1, 2]))]
        want = [x for x in walk(e)[1:] if any(complex_(s, x, root) for s in sels)]
        name = 'selector-inside'
    text = rng.choice([', ', ',', ' , ']).join(selmodel.text_of(s, rng) for s in sels)
    if 'p|' in text and P not in e_nsmap(e, root).values():
        return
    got = e.query_selector_all(text)
    if not whole and e is not root:
        got = [x for x in got if x is not e]
    same(m, name, got, want, (text, ctx))
    if whole or e is root:
        m.check(name, e.query_selector(text) is (want[0] if want else None), lambda: (text, ctx))
    m.state(len(want) > 0, text[:1], len(sels))
    if want:
        m.saw('matched')
    m.event(text, len(want))


def e_nsmap(e, root):
    return root.nsmap if not hasattr(e, 'nsmap') else e.nsmap


def case(m, rng, i):
    if rng.random() < 0.5:
        doc = SVGDOMImplementation().create_document(SVG, 'svg', nsmap={'p': P} if rng.random() < 0.7 else None)
        pool = build(rng, doc)
        if rng.random() < 0.6:       # read it back from text: every element has its namespace
            text = doc.tostring(encoding='utf-8')
            root = SVGParser().fromstring(text)
            doc = SVGDOMImplementation().create_document(None)
            doc.append(root)
            pool = walk(root)
    else:
        doc = SVGDOMImplementation().create_svg_document()
        pool = build(rng, doc)
    for step in range(4):
        root = doc.document_element
        queries(m, rng, doc, doc if rng.random() < 0.5 else rng.choice(walk(root)), (i, step, doc.tostring().decode()))
        # change the tree
        k = rng.randrange(4)
        inside = walk(root)
        e = rng.choice(inside)
        if k == 0:
            attributes(rng, e)
        elif k == 1 and e is not root:
            e.getparent().remove(e)
        elif k == 2:
            x = doc.create_element_ns(SVG, rng.choice(TAGS))
            attributes(rng, x)
            rng.choice([e.prepend, e.append])(x)
        elif e is not root:
            p = rng.choice(inside)
            if e not in list(p.iterancestors()) and p is not e:
                p.append(e)
    m.sample({'size': len(walk(doc.document_element))})


if __name__ == '__main__':
    vf.main(vf.Spec(
        'D05', case, quick=6000, thorough=200000,
        rule='random documents (SVG, foreign and missing namespaces, odd class names and white space), four queries of every kind '
             'between mutations',
        required=['by-id', 'by-class', 'nsmap', 'by-tag', 'by-tag-ns', 'by-local-name', 'selector', 'selector-inside', 'matched'],
        anchors=['svgpy/utils.py', 'svgpy/dom.py', 'svgpy/window.py', 'svgpy/style.py'],
        assumptions=['get_elements_by_*() of an svg element include the element itself (pinned by the unit tests)',
                     'an unprefixed type selector matches any namespace']))
