"""D06: documents parsed from text or built through the API, written, and read by an independent parser (expat)."""
import copy
import gc
import io
import os
import shutil
import tempfile
import threading
import xml.parsers.expat

import vf
from svgpy.dom import Comment, Element, Node, ProcessingInstruction
from svgpy.element import SVGParser
from svgpy.window import SVGDOMImplementation, Window

SVG = 'http://www.w3.org/2000/svg'
HTML = 'http://www.w3.org/1999/xhtml'
XLINK = 'http://www.w3.org/1999/xlink'
XML = 'http://www.w3.org/XML/1998/namespace'
ODD = 'http://example.com/n?a=1&b=2'
URN = 'urn:x'

# element -> the interface the SVG 2 or HTML specification gives it
CLASSES = {
    'a': 'SVGAElement', 'circle': 'SVGCircleElement', 'defs': 'SVGDefsElement', 'desc': 'SVGDescElement',
    'ellipse': 'SVGEllipseElement', 'g': 'SVGGElement', 'line': 'SVGLineElement',
    'linearGradient': 'SVGLinearGradientElement', 'marker': 'SVGMarkerElement', 'metadata': 'SVGMetadataElement',
    'path': 'SVGPathElement', 'pattern': 'SVGPatternElement', 'polygon': 'SVGPolygonElement',
    'polyline': 'SVGPolylineElement', 'radialGradient': 'SVGRadialGradientElement', 'rect': 'SVGRectElement',
    'script': 'SVGScriptElement', 'stop': 'SVGStopElement', 'style': 'SVGStyleElement', 'svg': 'SVGSVGElement',
    'symbol': 'SVGSymbolElement', 'text': 'SVGTextElement', 'textPath': 'SVGTextPathElement',
    'title': 'SVGTitleElement', 'tspan': 'SVGTSpanElement', 'use': 'SVGUseElement', 'view': 'SVGViewElement',
    'filter': 'SVGElement', 'switch': 'SVGElement', 'feBlend': 'SVGElement', 'Circle': 'SVGElement',
}
HCLASSES = {'audio': 'HTMLAudioElement', 'canvas': 'HTMLCanvasElement', 'iframe': 'HTMLIFrameElement',
            'video': 'HTMLVideoElement', 'link': 'HTMLLinkElement', 'p': 'HTMLElement', 'div': 'HTMLElement',
            'source': 'HTMLElement'}
CATS = {  # SVG 2: element categories
    'iscontainer': ({'a', 'defs', 'g', 'marker', 'pattern', 'svg', 'switch', 'symbol'}, CLASSES),
    'isshape': ({'circle', 'ellipse', 'line', 'path', 'polygon', 'polyline', 'rect'}, CLASSES),
    'isgraphics': ({'circle', 'ellipse', 'line', 'path', 'polygon', 'polyline', 'rect', 'text', 'textPath', 'tspan'},
                   {k for k in CLASSES if k != 'use'}),
    'isrenderable': ({'a', 'circle', 'ellipse', 'g', 'line', 'path', 'polygon', 'polyline', 'rect', 'svg', 'switch',
                      'text', 'textPath', 'tspan', 'use'}, CLASSES),
    'istransformable': ({'a', 'circle', 'ellipse', 'g', 'line', 'path', 'polygon', 'polyline', 'rect', 'svg',
                         'switch', 'text', 'use'},
                        {k for k in CLASSES if k not in ('defs', 'textPath', 'tspan', 'clipPath', 'symbol', 'marker',
                                                         'pattern')}),
    'istext': ({'text', 'tspan'}, {k for k in CLASSES if k != 'textPath'}),
}
TEXTS = ['', '', 'x', ' ', '\n  ', 'a b', '<', '&', '&amp;', ']]>', '"\'', 'a\tb\nc', 'é', 'ü€', '名前', '\U0001f600', '\xa0',
         'x=1;y<2 && z', '<!-- no -->', '\u2028', '0', 'Ａ', '\r', 'a\rb\r\nc', '\ufffd', '-->', '&#65;']
ANAMES = [(None, 'id'), (None, 'class'), (None, 'style'), (None, 'x'), (None, 'data-a'), (None, 'href'), (None, 'viewBox'),
          (XML, 'lang'), (XML, 'space'), (XLINK, 'href'), (XLINK, 'title'), (URN, 'href'), (ODD, 'q'), (None, 'a.b-c_d')]
NANAMES = [(None, 'été'), (None, '名'), (URN, 'ñ')]
AVALS = ['', 'x', ' ', '  a  b ', 'a"b', "a'b", '<', '&', '&amp;', '>', '\t', 'a\nb', 'é', '名', '\U0001f600', '\xa0', '10px',
         'fill: red; stroke: blue', '\r', '&#10;', '{urn:x}y']
DATAS = ['', ' ', 'c', ' comment ', '<g/>', '&amp; &', 'a-b', '- x', 'é', '名', ']]>', 'a\nb', '\U0001f600', 'x ? y', '"']
TARGETS = ['xml-stylesheet', 'p', 'php', 'a.b', 'x-y', 'XMLs']
PDATAS = ['', 'href="a.css" type="text/css"', 'x', 'a\nb', '<g>', '& &amp;', 'é', '名', '-- >', '?', 'a? >b']


def enc_ok(s, enc):
    try:
        s.encode(enc)
        return True
    except UnicodeEncodeError:
        return False


class E(object):
    def __init__(self, ns, local, attrs, kids):
        self.ns, self.local, self.attrs, self.kids = ns, local, attrs, kids


def merge(kids):
    """Adjacent text merged, empty text dropped."""
    r = []
    for k in kids:
        if k[0] == 't':
            if not k[1]:
                continue
            if r and r[-1][0] == 't':
                r[-1] = ('t', r[-1][1] + k[1])
                continue
        r.append(k)
    return r


def gen_el(rng, depth, enc, root=False):
    r = rng.random()
    if root:
        ns, local = SVG, 'svg'
    elif r < 0.72:
        ns, local = SVG, rng.choice(list(CLASSES))
    elif r < 0.87:
        ns, local = HTML, rng.choice(list(HCLASSES))
    elif r < 0.94:
        ns, local = rng.choice([URN, ODD]), rng.choice(['foo', 'x-y', 'g', 'a'])
    else:
        ns, local = rng.choice([SVG, HTML, URN]), rng.choice(['élan', '名', 'b', 'a.b'])
        if not enc_ok(local, enc):
            local = 'b'
    attrs = {}
    for k in range(rng.choice([0, 0, 1, 1, 2, 4])):
        an = rng.choice(ANAMES if rng.random() < 0.93 else NANAMES)
        if enc_ok(an[1], enc):
            attrs[an] = rng.choice(AVALS)
    kids = []
    if depth > 0:
        for k in range(rng.choice([0, 1, 2, 3, 5]) if root else rng.choice([0, 0, 1, 2, 3])):
            kids.append(gen_kid(rng, depth, enc))
    return ('e', ns, local, attrs, merge(kids))


def gen_misc(rng, enc):
    while True:
        if rng.random() < 0.5:
            d = rng.choice(DATAS)
            if enc_ok(d, enc):
                return ('c', d)
        else:
            d = rng.choice(PDATAS)
            if enc_ok(d, enc):
                return ('p', rng.choice(TARGETS), d)


def gen_kid(rng, depth, enc):
    r = rng.random()
    if r < 0.5:
        return gen_el(rng, depth - 1, enc)
    if r < 0.8:
        return ('t', ''.join(rng.choice(TEXTS) for _ in range(rng.randint(1, 3))))
    return gen_misc(rng, enc)


# ---- the writer: any of the many ways to write a tree -------------------------------------------------------------
class Writer(object):
    def __init__(self, rng, enc, entities):
        self.rng, self.enc, self.entities = rng, enc, entities
        self.n = 0

    def ref(self, ch):
        c = self.rng.random()
        if c < 0.4 and ch in '&<>"\'':
            return {'&': '&amp;', '<': '&lt;', '>': '&gt;', '"': '&quot;', "'": '&apos;'}[ch]
        return '&#%d;' % ord(ch) if c < 0.7 else '&#x%x;' % ord(ch) if c < 0.85 else '&#x%05X;' % ord(ch)

    def text(self, s):
        rng, out = self.rng, []
        if self.entities and s and rng.random() < 0.4:
            for name, val in self.entities.items():
                if val in s:
                    a, b = s.split(val, 1)
                    return self.text(a) + '&%s;' % name + self.text(b)
        if s and rng.random() < 0.15 and ']]>' not in s and '\r' not in s and enc_ok(s, self.enc):
            return '<![CDATA[' + s + ']]>'
        prev = ''
        for ch in s:
            if ch in '&<\r' or (ch == '>' and (prev.endswith(']]') or rng.random() < 0.5)) or not enc_ok(ch, self.enc) \
                    or rng.random() < 0.04:
                out.append(self.ref(ch))
            else:
                out.append(ch)
            prev = (prev + ch)[-2:]
        return ''.join(out)

    def attr(self, s):
        q = self.rng.choice('"\'')
        out = [self.ref(ch) if ch in '&<\t\r\n' + q or not enc_ok(ch, self.enc) or self.rng.random() < 0.04 else ch
               for ch in s]
        return q + ''.join(out) + q

    def ws(self, least=0):
        return ''.join(self.rng.choice([' ', ' ', '\n', '\t', '  ']) for _ in range(self.rng.choice([least, least, 1])))

    def pick(self, ns, scope, decls, need_prefix):
        """A prefix for ns, declared here if need be."""
        if ns == XML:
            return 'xml'
        have = [p for p, u in scope.items() if u == ns and (p or not need_prefix)]
        if have and self.rng.random() < 0.85:
            return self.rng.choice(have)
        p = ''
        if need_prefix or self.rng.random() < 0.4 or '' in decls:
            p = self.rng.choice(['a', 'b', 'svg', 'html', 'xlink', 'p-1', '_', 'x%d' % self.n])
            self.n += 1
            while p in decls:
                p = 'y%d' % self.n
                self.n += 1
        decls[p] = ns
        scope[p] = ns
        return p

    def node(self, n, scope):
        if n[0] == 't':
            return self.text(n[1])
        if n[0] == 'c':
            return '<!--' + n[1] + '-->'
        if n[0] == 'p':
            return '<?' + n[1] + (' ' + n[2] if n[2] else '') + '?>'
        _, ns, local, attrs, kids = n
        scope = dict(scope)
        decls = {}
        pre = self.pick(ns, scope, decls, False)
        used = {pre}
        parts = []
        for (ans, aname), v in attrs.items():
            if ans is None:
                parts.append(aname + self.ws() + '=' + self.ws() + self.attr(v))
            else:
                ap = self.pick_free(ans, scope, decls, used)
                used.add(ap)
                parts.append(ap + ':' + aname + '=' + self.attr(v))
        for p, u in decls.items():
            parts.append(('xmlns:' + p if p else 'xmlns') + '=' + self.attr(u))
        self.rng.shuffle(parts)
        q = (pre + ':' if pre else '') + local
        s = '<' + q + ''.join(self.ws(1) + ' ' + p for p in parts) + self.ws()
        if not kids and self.rng.random() < 0.7:
            return s + '/>'
        return s + '>' + ''.join(self.node(k, scope) for k in kids) + '</' + q + self.ws() + '>'

    def pick_free(self, ns, scope, decls, used):
        # a new declaration must not take a prefix already used in this tag
        if ns == XML:
            return 'xml'
        have = [p for p, u in scope.items() if u == ns and p]
        if have:
            return self.rng.choice(have)
        p = 'q%d' % self.n
        self.n += 1
        decls[p] = ns
        scope[p] = ns
        return p


# ---- the reader: expat --------------------------------------------------------------------------------------------
def expat_read(data, enc=None):
    p = xml.parsers.expat.ParserCreate(enc, '\x01')
    p.buffer_text = True
    top = []
    stack = [top]

    def name(s):
        a = s.split('\x01')
        return (None, a[0]) if len(a) == 1 else (a[0], a[1])

    def start(tag, attrs):
        ns, local = name(tag)
        kids = []
        d = {}
        for i in range(0, len(attrs), 2):
            d[name(attrs[i])] = attrs[i + 1]
        stack[-1].append(('e', ns, local, d, kids))
        stack.append(kids)

    def end(tag):
        stack.pop()

    p.ordered_attributes = True
    p.StartElementHandler = start
    p.EndElementHandler = end
    p.CharacterDataHandler = lambda s: stack[-1].append(('t', s))
    p.CommentHandler = lambda s: stack[-1].append(('c', s))
    p.ProcessingInstructionHandler = lambda t, s: stack[-1].append(('p', t, s))
    p.Parse(data, True)

    def norm(n):
        return ('e', n[1], n[2], n[3], merge([norm(k) for k in n[4]])) if n[0] == 'e' else n
    return [norm(n) for n in top]


# ---- the API ------------------------------------------------------------------------------------------------------
def api_read(m, n, seen):
    """The tree as the API reports it."""
    seen.append(n)
    if n.node_type == Node.COMMENT_NODE:
        m.eq('node-interface', (n.node_name, n.node_value, n.text_content, n.length, type(n)),
             ('#comment', n.data, n.data, len(n.data), Comment))
        return ('c', n.data)
    if n.node_type == Node.PROCESSING_INSTRUCTION_NODE:
        m.eq('node-interface', (n.node_name, n.node_value, n.text_content, n.length, type(n)),
             (n.target, n.data, n.data, len(n.data), ProcessingInstruction))
        return ('p', n.target, n.data)
    m.eq('node-type', n.node_type, Node.ELEMENT_NODE)
    attrs = {}
    for name in list(n.attributes):
        ns, local = name[1:].split('}', 1) if name[0] == '{' else (None, name)
        a = n.attributes[name]
        attrs[(ns, local)] = a.value
        if (m.counts['attribute-interface'] & 3) == 0:
            m.eq('attribute-views', (n.get_attribute_ns(ns, local), a.local_name, a.namespace_uri, n.get(name)),
                 (a.value, local, ns, a.value), name)
        m.counts['attribute-interface'] += 1
    kids = [('t', n.text or '')]
    for c in n.child_nodes:
        kids.append(api_read(m, c, seen))
        kids.append(('t', c.tail or ''))
    local = n.local_name
    m.eq('names', (n.tag_name, n.node_name, n.tag),
         ((n.prefix + ':' if n.prefix else '') + local,) * 2 + ('{%s}%s' % (n.namespace_uri, local),), n.tag)
    return ('e', n.namespace_uri, local, attrs, merge(kids))


def classes(m, nodes, where):
    for n in nodes:
        if n.node_type != Node.ELEMENT_NODE:
            continue
        ns, local = n.tag[1:].split('}')
        want = CLASSES.get(local) if ns == SVG else HCLASSES.get(local) if ns == HTML else None
        if want is None:
            m.check('class', isinstance(n, Element), (n.tag, type(n)))
            continue
        m.eq('class', type(n).__name__, want, (where, n.tag))
        m.eq('same-object', n.attributes is n.attributes and n.class_list is n.class_list, True)
        if ns == SVG:
            for f, (members, domain) in CATS.items():
                if local in domain:
                    m.eq('category', getattr(n, f)(), local in members, (f, local))


def build(m, rng, doc, parser, node, parent):
    """The tree made through the API."""
    if node[0] == 'c':
        return (doc if rng.random() < 0.7 else parser).create_comment(node[1])
    if node[0] == 'p':
        maker = doc if rng.random() < 0.7 else parser
        if not node[2] and rng.random() < 0.5:
            return maker.create_processing_instruction(node[1])
        return maker.create_processing_instruction(node[1], node[2])
    _, ns, local, attrs, kids = node
    nsmap = {}
    for p, u in (('xlink', XLINK), ('z', URN), ('odd', ODD), ('html', HTML)):
        # a prefix of lxml's own making may shadow another one when the element is moved
        if u == ns or any(a[0] == u for a in attrs) or rng.random() < 0.3:
            nsmap[p] = u
    qn = local
    if ns == HTML and rng.random() < 0.3:
        qn = 'html:' + local
    keep = dict(nsmap)
    early, late = {}, {}
    for k, v in attrs.items():
        (early if rng.random() < 0.3 else late)[k] = v
    attrib = {('{%s}%s' % k if k[0] else k[1]): v for k, v in early.items()}
    kept = dict(attrib)
    e = (doc if rng.random() < 0.7 else parser).create_element_ns(ns, qn, attrib=attrib or None, nsmap=nsmap or None)
    m.eq('arguments-kept', (nsmap, attrib), (keep, kept))
    attach_first = parent is not None and rng.random() < 0.4
    if attach_first:
        parent.append_child(e)
    for (ans, an), v in late.items():
        r = rng.random()
        key = '{%s}%s' % (ans, an) if ans else an
        if v == '' or r < 0.3:
            e.set(key, v)
        elif r < 0.6:
            e.set_attribute_ns(ans, ({XML: 'xml:', XLINK: 'xlink:'}.get(ans, '') if rng.random() < 0.5 else '') + an, v)
        else:
            e.attributes[key] = v
    last = None
    for k in kids:
        if k[0] == 't':
            if rng.random() < 0.5:
                e.append(k[1])
            elif last is None:
                e.text = k[1]
            else:
                last.tail = k[1]
            continue
        c = build(m, rng, doc, parser, k, e)
        if c.parent_node is not e:
            if rng.random() < 0.5:
                e.append_child(c)
            else:
                e.append(c)
        last = c
    return e


def run(m, rng, i):
    enc = rng.choice(['utf-8', 'utf-8', 'utf-16', 'iso-8859-1', 'us-ascii'])
    out_enc = rng.choice(['utf-8', None, 'utf-16', 'unicode', 'us-ascii', 'iso-8859-1'])
    limit = 'us-ascii' if out_enc in (None, 'us-ascii') or enc == 'us-ascii' else \
        'iso-8859-1' if 'iso-8859-1' in (enc, out_enc) else 'utf-8'
    tree = gen_el(rng, rng.randint(1, 4), limit, root=True)
    pre = [gen_misc(rng, limit) for _ in range(rng.choice([0, 0, 1, 2]))]
    post = [gen_misc(rng, limit) for _ in range(rng.choice([0, 0, 1, 2]))]
    want = pre + [tree] + post
    impl = SVGDOMImplementation()
    doc = Window(impl).document if rng.random() < 0.5 else impl.create_svg_document()
    parser = impl.parser
    way = rng.choice(['build', 'str', 'bytes', 'file', 'path', 'url'])
    ctx = {'way': way, 'enc': enc, 'out': out_enc}
    if way == 'build':
        root = build(m, rng, doc, parser, tree, None)
        doc.replace_child(root, doc.document_element)
        if pre:
            doc.prepend(*[build(m, rng, doc, parser, n, None) for n in pre])
        for n in post:
            c = build(m, rng, doc, parser, n, None)
            rng.choice([doc.append, doc.append_child])(c)
            c = None
    else:
        ents = {'e1': 'x', 'e-2': 'a b'} if rng.random() < 0.3 else {}
        fenc = 'utf-8' if way == 'str' else enc
        w = Writer(rng, fenc, ents)
        body = w.node(tree, {})
        nl = lambda: rng.choice(['', '\n', ' \n'])
        text = ''.join(w.node(n, {}) + nl() for n in pre)
        if ents:
            text += '<!DOCTYPE %s [%s]>\n' % ('svg', ''.join('<!ENTITY %s "%s">' % kv for kv in ents.items()))
        text += body + ''.join(nl() + w.node(n, {}) for n in post) + nl()
        m.counts['generator'] += 1
        if expat_read(text) != want:
            raise AssertionError('the generator is wrong: %r' % text)
        if way != 'str':
            text = "<?xml version='1.0' encoding='%s'?>" % enc + nl() + text
            if enc == 'utf-8' and rng.random() < 0.3:
                text = '\ufeff' + text
            text = text.encode(enc)
        ctx['text'] = text
        if way in ('str', 'bytes'):
            root = parser.fromstring(text)
        elif way == 'file':
            src = io.BytesIO(text)
            root = parser.parse(src).getroot() if rng.random() < 0.5 else impl.parse(src)
        else:
            d = tempfile.mkdtemp(prefix='d06')
            try:
                path = os.path.join(d, 'in put.svg')
                with open(path, 'wb') as f:
                    f.write(text)
                if way == 'path':
                    root = parser.parse(path).getroot()
                else:
                    root = impl.parse('file://' + path.replace(' ', '%20'))
            finally:
                shutil.rmtree(d)
        doc.replace_child(root, doc.document_element)
    m.event('tree', way, enc, out_enc, len(pre), len(post))
    if rng.random() < 0.5:
        root = None  # the document keeps it
    if rng.random() < 0.6:
        gc.collect()
    # 1. the API reports the tree
    seen = []
    got = [api_read(m, n, seen) for n in doc.child_nodes]
    m.eq('api-tree', got, want, ctx)
    m.eq('document-element', (doc.document_element is doc.child_nodes[len(pre)], doc.children),
         (True, [doc.document_element]))
    classes(m, seen, 'document')
    for n in seen:
        if n.owner_document is not doc:
            m.check('owner', False, (n, n.owner_document))
    m.counts['owner'] += len(seen)
    m.state(way, enc, out_enc, min(len(seen), 12), len(pre), len(post))
    count = len(seen)
    n = seen = None
    # 2. the text of the document is the tree
    kw = {}
    if out_enc is not None:
        kw['encoding'] = out_enc
    if out_enc != 'unicode' and rng.random() < 0.4:
        kw['xml_declaration'] = True
    out = doc.tostring(**kw)
    m.check('output-type', isinstance(out, str if out_enc == 'unicode' else bytes), type(out))
    if out_enc == 'iso-8859-1':
        kwx = {'enc': 'iso-8859-1'}
    else:
        kwx = {}
    back = expat_read(out, **kwx)
    m.eq('written-tree', back, want, lambda: dict(ctx, written=out))
    # 3. so is that of its element
    el = doc.document_element
    m.eq('written-element', expat_read(el.tostring(encoding='utf-8', with_tail=False)), [tree], ctx)
    # writing changes nothing
    if rng.random() < 0.3:
        doc.tostring(pretty_print=True)
        m.eq('written-again', doc.tostring(**kw), out)
    # 4. reading it again gives the same tree and classes
    if rng.random() < 0.5:
        p2 = rng.choice([parser, SVGParser()])
        src = out if out_enc != 'iso-8859-1' or kw.get('xml_declaration') else out.decode('iso-8859-1')
        if isinstance(src, str):
            src = src.split('?>', 1)[1].lstrip() if src.startswith('<?xml ') else src
        r2 = p2.fromstring(src)
        seen = []
        m.eq('read-again', api_read(m, r2, seen), tree, ctx)
        m.eq('read-again-size', len(seen), count - len(pre) - len(post))
        classes(m, seen, 'read again')
    # 5. a copy is the same tree and is independent
    if rng.random() < 0.3:
        cp = copy.deepcopy(doc.document_element)
        seen = []
        m.eq('copy', api_read(m, cp, seen), tree, ctx)
        classes(m, seen, 'copy')
        for n in seen:
            if n.node_type == Node.ELEMENT_NODE:
                n.set('id', 'changed')
                n.class_list.add('changed')
        m.eq('copy-independent', [api_read(m, n, []) for n in doc.child_nodes], want, ctx)
    m.sample({'way': way, 'encoding': enc, 'written': repr(out)[:300]})


def case(m, rng, i):
    if i % 12:
        return run(m, rng, i)
    # in a thread that has made no parser of its own
    err = []

    def target():
        try:
            run(m, rng, i)
        except BaseException as e:
            err.append(e)
    t = threading.Thread(target=target)
    t.start()
    t.join()
    m.counts['threads'] += 1
    if err:
        raise err[0]


def options(m, rng):
    """Options of the parser reach it."""
    text = '<svg xmlns="%s"> <!--c--> <?p d?> <g/> </svg>' % SVG
    for mk in (lambda **k: SVGParser(**k), lambda **k: SVGDOMImplementation(**k).parser):
        m.eq('options', [type(n).__name__ for n in mk(remove_comments=True).fromstring(text)],
             ['ProcessingInstruction', 'SVGGElement'])
        m.eq('options', [type(n).__name__ for n in mk(remove_pis=True).fromstring(text)], ['Comment', 'SVGGElement'])
        m.eq('options', mk(remove_blank_text=True).fromstring(text).text, None)
    for bad in ('<svg>', '', '<svg xmlns="a"></g></svg>', '<a:b/>', '<svg/><svg/>', '<g a="1" a="2"/>', '<g>&nope;</g>'):
        try:
            SVGParser().fromstring(bad)
        except Exception as e:
            m.check('ill-formed', type(e).__name__ == 'XMLSyntaxError', (bad, repr(e)))
        else:
            m.check('ill-formed', False, bad)


if __name__ == '__main__':
    vf.main(vf.Spec(
        'D06', case, quick=4000, thorough=150000, fixed=[options],
        rule='trees of elements of five namespaces, text, comments and instructions, written by an independent writer '
             '(prefixes, references, CDATA, entities, encodings) or built through the API; distinct = way, encodings, size',
        required=['api-tree', 'written-tree', 'written-element', 'read-again', 'class', 'category', 'owner', 'copy',
                  'threads', 'options', 'ill-formed'],
        anchors=['svgpy/element.py', 'svgpy/window.py', 'svgpy/dom.py'],
        assumptions=['xml.parsers.expat is the independent reader',
                     'names, comments and instructions are ones the output encoding has',
                     'elements built through the API are given prefixes for the namespaces they use: lxml 6.1.3 '
                     'confuses prefixes of its own making when it moves an element']))
