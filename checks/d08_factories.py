"""D08: what the factories make: documents and nodes exactly as asked, owned by their maker, sharing nothing; failures leave no trace."""
import vf
from svgpy import SVGParser
from svgpy.dom import Attr, Comment, Element, Node, ProcessingInstruction
from svgpy.exception import (DOMException, HierarchyRequestError, InvalidCharacterError, NamespaceError, NotFoundError)
from svgpy.window import Document, SVGDOMImplementation, Window, XMLDocument

SVG, HTML, XLINK, XML = ('http://www.w3.org/2000/svg', 'http://www.w3.org/1999/xhtml', 'http://www.w3.org/1999/xlink',
                         'http://www.w3.org/XML/1998/namespace')
NS = [None, '', SVG, SVG, HTML, XLINK, 'urn:x']
NAMES = ['g', 'svg', 'rect', 'text', 'p', 'foo', 'x-y', '_a.b', '\u00e9t\u00e9', 'style', 'A1']
TARGETS = ['p', 'xml-stylesheet', 'x-y', '\u00e9']
DATA = ['', 'x', 'a b', ' a ', '<b>&amp;', 'a\nb', '\u00e9\U0001d54f', '- a -x', ']]>', 'href="a"', '1']
BAD = [('', ValueError), ('a b', InvalidCharacterError), ('a\t', InvalidCharacterError), ('1a', ValueError), ('a<', ValueError), ('-a', ValueError),
       ('html:', ValueError), (':a', ValueError), ('q:a', NamespaceError), ('{urn:y}a', NamespaceError)]
TYPES = {SVG: 'image/svg+xml', HTML: 'application/xhtml+xml'}


class Doc(object):
    def __init__(self, real, kind, root, impl):
        self.real, self.kind, self.root, self.impl = real, kind, root, impl


class Rec(object):
    """kind: element, comment, pi or attr"""

    def __init__(self, kind, real, doc, **kw):
        self.kind, self.real, self.doc, self.parent, self.kids, self.view = kind, real, doc, None, [], None
        self.__dict__.update(kw)

    def tree(self):
        out = [self]
        for k in self.kids:
            out += k.tree()
        return out


def clark(ns, name):
    return '{%s}%s' % (ns, name) if ns else name


def case(m, rng, i):
    parser = SVGParser()
    impls = [SVGDOMImplementation(parser), SVGDOMImplementation(), SVGDOMImplementation(remove_comments=True)]
    docs, recs = [], []

    def new_doc():
        impl = rng.choice(impls)
        ns, name = rng.choice(NS), rng.choice(NAMES + [None, ''])
        nsmap = rng.choice([None, None, {}, {'q': 'urn:q'}, {None: 'urn:x', 'q': SVG}])
        saved = None if nsmap is None else dict(nsmap)
        how = rng.choice(['impl', 'impl', 'parser', 'svg', 'parser-svg', 'window'])
        if how == 'impl':
            real = impl.create_document(ns, name, nsmap=nsmap)
        elif how == 'parser':
            impl = None
            real = parser.create_document(ns, name, nsmap=nsmap)
        elif how == 'window':
            ns, name, nsmap, saved = SVG, 'svg', None, None
            w = Window(impl)
            real = w.document
            m.check('window', real.default_view is w and real.location is w.location and w.document is real, how)
        else:
            ns, name = SVG, 'svg'
            if how == 'svg':
                real = impl.create_svg_document(nsmap=nsmap)
            else:
                impl = None
                real = parser.create_svg_document(nsmap=nsmap)
        if impl is None:
            m.check('implementation', real.implementation.parser is parser, how)
            impl = real.implementation
        m.check('arguments-kept', nsmap == saved, lambda: (nsmap, saved))
        root = None
        if name:
            root = Rec('element', real.document_element, None, ns=ns or None, name=name, attrs={})
            m.check('root', isinstance(root.real, Element), how)
            recs.append(root)
            for p, u in (saved or {}).items():
                if p is not None:
                    m.check('nsmap', root.real.nsmap.get(p) == u, lambda: (p, u, dict(root.real.nsmap)))
        d = Doc(real, TYPES.get(ns, 'application/xml'), root, impl)
        if root is not None:
            root.doc, root.parent = d, d
        docs.append(d)
        m.check('document', type(real) is XMLDocument, lambda: type(real))

    def look_doc(d):
        r = d.real
        m.eq('content-type', r.content_type, d.kind)
        m.eq('address', (r.document_uri, r.url, r.location.href, r.origin), ('about:blank', 'about:blank', 'about:blank', 'null'))
        m.check('document-node', (r.node_type, r.node_name, r.node_value, r.text_content, r.parent_node, r.next_sibling, r.previous_sibling) ==
                (9, '#document', None, None, None, None, None) and r.implementation is d.impl)
        root = d.root.real if d.root else None
        want = [root] if d.root else []
        m.check('document-tree', r.document_element is root and list(r.child_nodes) == want and list(r.children) == want and list(r) == want
                and len(r) == len(want) and (root in r) is bool(want) and r.has_child_nodes() is bool(want)
                and r.first_child is root and r.last_child is root, lambda: (want, r.child_nodes))
        if d.root is None:
            m.saw('empty')
            m.eq('empty-document', [r.get_element_by_id('a'), r.get_elements_by_class_name('a'), r.get_elements_by_tag_name('*'),
                                    r.get_elements_by_tag_name_ns('*', '*'), r.query_selector_all('*'), r.query_selector('*'), list(r.iter()), r.style_sheets,
                                    r.tostring()],
                 [None, [], [], [], [], None, [], [], b''])
        else:
            m.check('iteration', list(r.iter()) == [x.real for x in d.root.tree()], lambda: (list(r.iter()), d.root.tree()))

    def make():
        kind = rng.choice(['element', 'element', 'comment', 'pi', 'attr'])
        d = rng.choice(docs + [None])
        maker = d.real if d else parser
        if kind == 'comment':
            t = rng.choice(DATA)
            return Rec(kind, maker.create_comment(t), d, data=t)
        if kind == 'pi':
            target, t = rng.choice(TARGETS), rng.choice([None] + DATA)
            t = t.strip(' ') if t else t
            return Rec(kind, maker.create_processing_instruction(target, t) if t is not None or rng.random() < 0.5
                       else maker.create_processing_instruction(target), d, target=target, data=t or '')
        if kind == 'attr':
            ns, name = rng.choice(NS), rng.choice(NAMES)
            if rng.random() < 0.3:
                return Rec(kind, maker.create_attribute(name), d, ns=None, name=name, value='', owner=None)
            return Rec(kind, maker.create_attribute_ns(ns, name), d, ns=ns or None, name=name, value='', owner=None)
        attrib = rng.choice([None, {}, {'id': 'a'}, {'class': 'x y', 'fill': '#f00'}, {'{%s}href' % XLINK: '#a', 'x': ''}])
        nsmap = rng.choice([None, None, {'q': 'urn:q'}, {None: 'urn:x'}])
        saved = [dict(x or {}) for x in (attrib, nsmap)]
        if rng.random() < 0.3:
            ns, name = None, rng.choice(NAMES)
            real = maker.create_element(name, attrib=attrib, nsmap=nsmap)
        else:
            ns, name = rng.choice(NS), rng.choice(NAMES)
            q = rng.choice([name, name, clark(ns, name)] + (['html:' + name] if ns == HTML else []))
            real = maker.create_element_ns(ns, q, attrib, nsmap)
        m.check('arguments-kept', [dict(x or {}) for x in (attrib, nsmap)] == saved, lambda: (attrib, nsmap, saved))
        if attrib:
            attrib['later'] = 'x'
        return Rec('element', real, d, ns=ns or None, name=name, attrs=saved[0])

    def look(r):
        n = r.real
        m.saw(r.kind)
        d = r.owner.doc if r.kind == 'attr' and r.owner else r.doc
        m.check('owner', n.owner_document is (d.real if d else None), lambda: (r.kind, n))
        up = r.parent.real if r.parent else None
        if r.kind == 'element':
            m.check('element', (n.tag, n.local_name, n.node_type, n.node_value, dict(n.attrib)) == (clark(r.ns, r.name), r.name, 1, None, r.attrs)
                    and (r.ns is None or n.namespace_uri == r.ns) and n.node_name == n.tag_name == (n.prefix + ':' + r.name if n.prefix else r.name),
                    lambda: (n.tag, n.node_name, n.prefix, dict(n.attrib), r.__dict__))
            m.check('element-tree', list(n.child_nodes) == list(n) == [k.real for k in r.kids] and
                    list(n.children) == [k.real for k in r.kids if k.kind == 'element'] and n.text is None and n.tail is None,
                    lambda: (list(n), r.kids))
            if isinstance(r.parent, Doc):
                m.check('element-parent', n.getparent() is None and n.get_root_node() is n, r.name)
            else:
                m.check('element-parent', n.parent_node is up and n.parent_element is up, r.name)
            return
        if r.kind == 'attr':
            m.check('attr', (n.name, n.local_name, n.namespace_uri, n.node_name, n.node_type) ==
                    (clark(r.ns, r.name), r.name, r.ns, clark(r.ns, r.name), 2), lambda: (n, r.__dict__))
            m.check('attr-value', n.value == n.node_value == n.text_content == r.value and n.owner_element is (r.owner and r.owner.real), lambda: (n, r.__dict__))
            m.check('attr-tree', list(n.child_nodes) == [] and n.parent_node is n.next_sibling is n.previous_sibling is None and n.get_root_node() is n
                    and not n.has_child_nodes())
            return
        m.check('data', n.data == n.node_value == n.text_content == r.data or (not r.data and not n.data and not n.node_value and not n.text_content),
                lambda: (n, n.data, r.data))
        if r.data:
            m.check('data-length', n.length == len(r.data), lambda: (n.length, r.data))
        if r.kind == 'comment':
            m.check('comment', type(n) is Comment and (n.node_name, n.node_type) == ('#comment', 8))
            m.eq('text', n.tostring(encoding='unicode', with_tail=False), '<!--%s-->' % r.data)
        else:
            m.check('pi', type(n) is ProcessingInstruction and (n.node_name, n.target, n.node_type) == (r.target, r.target, 7))
            m.eq('text', n.tostring(encoding='unicode', with_tail=False), '<?%s%s?>' % (r.target, ' ' + r.data if r.data else ' ' if n.data is not None else ''))
        m.check('leaf-tree', list(n.child_nodes) == [] and n.parent_node is up and not n.has_child_nodes())

    def errors():
        k = rng.randrange(5)
        els = [r for r in recs if r.kind == 'element']
        if k == 0:      # names
            bad, exc = rng.choice(BAD)
            ns = rng.choice([SVG, 'urn:x'])
            maker = rng.choice([d.real for d in docs] + [parser])
            fs = [lambda: maker.create_element_ns(ns, bad)]
            if exc is not ValueError or bad in ('', 'html:', ':a'):
                fs += [lambda: maker.create_attribute_ns(ns, bad), lambda: rng.choice(impls).create_document(ns, bad) if bad else maker.create_attribute(bad)]
            if els:
                fs += [lambda: rng.choice(els).real.create_sub_element_ns(ns, bad)]
            m.raises('bad-name', exc, rng.choice(fs), (ns, bad))
        elif k == 1 and els:      # attribute names and values
            e = rng.choice(els)
            a = rng.choice([{'a b': 'x'}, {'x': 'a\0'}, {'1': 'x'}, {'x': None}, {'': ''}])
            m.raises('bad-attribute', (ValueError, TypeError), rng.choice([
                lambda: e.real.create_sub_element('g', attrib=a), lambda: e.real.create_sub_element_ns('urn:x', 'g', index=0, attrib=a),
                lambda: parser.create_element('g', attrib=a)]), a)
        elif k == 2:        # nodes that can have no children
            leaves = [r for r in recs if r.kind != 'element']
            if leaves:
                a, b = rng.choice(leaves).real, rng.choice(recs).real
                m.saw('leaf')
                m.raises('leaf', HierarchyRequestError, rng.choice([
                    lambda: a.append_child(b), lambda: a.insert_before(b, None), lambda: a.remove_child(b), lambda: a.replace_child(b, b)]), (a, b))
        elif k == 3:        # no implementation
            bare = Document()
            m.raises('no-implementation', ValueError, rng.choice([
                lambda: bare.create_element('g'), lambda: bare.create_element_ns(SVG, 'g'), lambda: bare.create_comment('x'), lambda: bare.create_attribute('x'),
                lambda: bare.create_attribute_ns(None, 'x'), lambda: bare.create_processing_instruction('x')]))
        else:
            m.raises('bad-data', ValueError, rng.choice([
                lambda: parser.create_comment('a--b'), lambda: parser.create_comment('a\0'), lambda: rng.choice(docs).real.create_comment('x-'),
                lambda: parser.create_processing_instruction('a', '?>'), lambda: rng.choice(docs).real.create_processing_instruction('xml', 'x')]))

    glance = vf.Glances(rng)
    new_doc()
    for step in range(rng.randint(4, 22)):
        r = rng.random()
        els = [x for x in recs if x.kind == 'element']
        if r < 0.12:
            new_doc()
        elif r < 0.4:
            recs.append(make())
        elif r < 0.55 and els:
            e = rng.choice(els)
            ns, name = rng.choice([SVG, HTML, 'urn:x']), rng.choice(NAMES)
            attrs = rng.choice([{}, {'id': 'b'}, {'x': '1', 'y': '2'}])
            at = rng.choice([None, 0, rng.randint(0, len(e.kids)), len(e.kids)])
            kw = {} if at is None else {'index': at}
            real = e.real.create_sub_element_ns(ns, name, attrib=attrs, **kw)
            sub = Rec('element', real, e.doc, ns=ns, name=name, attrs=dict(attrs))
            sub.parent = e
            e.kids.insert(len(e.kids) if at is None else at, sub)
            recs.append(sub)
            m.saw('sub')
        elif r < 0.65:
            x = [x for x in recs if x.kind in ('comment', 'pi')]
            if x:
                x = rng.choice(x)
                t = rng.choice(DATA).strip(' ')
                setattr(x.real, rng.choice(['data', 'node_value', 'text_content']), t)
                x.data = t
                m.saw('set-data')
        elif r < 0.75:
            x = [x for x in recs if x.kind == 'attr']
            if x:
                x = rng.choice(x)
                if x.owner is None and els and rng.random() < 0.5:
                    e = rng.choice(els)
                    if x.value and not (x.ns is None and x.name in e.attrs) and clark(x.ns, x.name) not in e.attrs:
                        e.real.set_attribute_node_ns(x.real)
                        e.attrs[clark(x.ns, x.name)] = x.value
                        x.owner = e
                        m.saw('attr-set')
                elif x.owner and rng.random() < 0.4:
                    e = x.owner
                    m.check('removed', e.real.remove_attribute_node(x.real) is x.real, x.name)
                    del e.attrs[clark(x.ns, x.name)]
                    x.owner, x.doc = None, e.doc
                    m.saw('attr-removed')
                else:
                    t = rng.choice(['v', 'w 1', '<&">', '\u00e9'])
                    setattr(x.real, rng.choice(['value', 'node_value', 'text_content']), t)
                    x.value = t
                    if x.owner:
                        x.owner.attrs[clark(x.ns, x.name)] = t
        elif r < 0.83:
            # documents taken from and given to whole subtrees
            tops = [x for x in recs if x.parent is None and x.kind != 'attr']
            if tops:
                x = rng.choice(tops)
                if rng.random() < 0.5:
                    old = x.real.detach_document()
                    m.check('detached', old is (x.doc.real if x.doc else None), lambda: old)
                    d = None
                elif rng.random() < 0.1:
                    m.check('attached', x.real.attach_document(None) is False)
                    d = x.doc
                else:
                    d = rng.choice(docs)
                    m.check('attached', x.real.attach_document(d.real) is True)
                for y in x.tree():
                    y.doc = d
                m.saw('moved')
        elif r < 0.9 and els:
            # a node made on its own joins an element of its document
            e = rng.choice(els)
            loose = [x for x in recs if x.parent is None and x.kind != 'attr' and x.doc is e.doc and e not in x.tree()
                     and (x.kind != 'element' or all(y.real.nsmap == e.real.nsmap for y in x.tree() if y.kind == 'element'))]
            if loose:
                x = rng.choice([x for x in loose if x.kind != 'element'] or loose) if rng.random() < 0.5 else rng.choice(loose)
                m.check('joined', e.real.append_child(x.real) is x.real)
                x.parent = e
                e.kids.append(x)
        else:
            errors()
        m.event(len(docs), len(recs))
        for x in recs:
            if glance(rng) or step % 6 == 5:
                look(x)
        for d in docs:
            if glance(rng):
                look_doc(d)
    for x in recs:
        look(x)
    for d in docs:
        look_doc(d)
    m.state(len(docs), tuple((x.kind, x.doc is not None) for x in recs))


def distinct(m, rng):
    """No state shared between the things one factory makes."""
    impl = SVGDOMImplementation()
    a, b = impl.create_svg_document(), impl.create_svg_document()
    m.check('separate', a is not b and a.document_element is not b.document_element and a.location is not b.location
            and a.registered_property_set is not b.registered_property_set)
    a.document_element.set('id', 'x')
    m.check('separate', b.document_element.get('id') is None and a.get_element_by_id('x') is a.document_element and b.get_element_by_id('x') is None)
    p, q = a.create_element('p'), a.create_element('p')
    m.check('separate', p is not q and p.attributes is not q.attributes and p.style is not q.style)
    p.style.set_property('fill', 'red')
    m.check('separate', q.get('style') is None and p.get('style') == 'fill: red;', lambda: (p.get('style'), q.get('style')))
    v, w = Window(impl), Window(impl)
    m.check('separate', v.document is not w.document and v.location is not w.location and v.screen is not w.screen)
    v.inner_width, v.page_zoom_scale = 7, 3
    m.check('separate', w.inner_width == w.screen.width and w.page_zoom_scale == 1)


if __name__ == '__main__':
    vf.main(vf.Spec(
        'D08', case, quick=6000, thorough=120000,
        rule='histories of creating documents and nodes through windows, implementations, parsers, documents and elements, changing their data and '
             'documents, and failing calls; a state is the number of documents and the kinds of nodes',
        required=['empty', 'element', 'comment', 'pi', 'attr', 'sub', 'set-data', 'moved', 'joined', 'leaf', 'attr-set', 'bad-name', 'bad-attribute', 'bad-data',
                  'no-implementation', 'separate', 'window', 'content-type'],
        fixed=[distinct],
        anchors=['svgpy/window.py', 'svgpy/element.py', 'svgpy/dom.py'],
        assumptions=['elements join elements with the same prefixes in scope only (lxml renames others)', 'qualified names with prefixes are those of the built-in prefixes', 'data has no -- and no leading or trailing space in instructions']))
