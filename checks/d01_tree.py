"""D01: histories of DOM tree mutations against an ordered-tree model."""
import vf
from svgpy.dom import Node
from svgpy.element import SVGParser
from svgpy.exception import HierarchyRequestError, NotFoundError
from svgpy.window import SVGDOMImplementation

TAGS = ['svg', 'g', 'rect', 'text', 'a', 'defs', 'title', 'style', 'foo', 'path', 'use']


class N(object):
    """The model of a node."""

    def __init__(self, real, kind, own):
        self.real, self.kind, self.own = real, kind, own
        self.parent = None
        self.kids = []
        self.text = ''
        self.tail = ''

    def owner(self):
        n = self
        while n is not None:
            if n.own is not None:
                return n.own
            n = n.parent
        return None

    def root(self):
        n = self
        while n.parent is not None:
            n = n.parent
        return n

    def inside(self, other):
        n = self
        while n is not None:
            if n is other:
                return True
            n = n.parent
        return False

    def attach(self, doc):
        if doc is None:
            return
        self.own = doc
        for k in self.kids:
            k.attach(doc)

    def __repr__(self):
        return '%s#%s' % (self.kind, self.name)


class Doc(object):
    """The model of a document: its top-level children."""

    def __init__(self, real):
        self.real = real
        self.kids = []
        self.name = 'doc'


class World(object):
    def __init__(self, rng):
        self.rng = rng
        impl = SVGDOMImplementation()
        self.nodes = []
        self.docs = []
        self.parser = SVGParser()
        for d in range(2):
            real = impl.create_svg_document()
            doc = Doc(real)
            doc.name = 'doc%d' % d
            self.docs.append(doc)
            root = self.add(real.document_element, 'e', doc)
            doc.kids = [root]
        for k in range(rng.randint(4, 11)):
            doc = rng.choice([self.docs[0], self.docs[0], self.docs[1], None])
            maker = doc.real if doc is not None else self.parser
            kind = rng.choice('eeeeccp')
            if kind == 'e':
                real = maker.create_element(rng.choice(TAGS))
            elif kind == 'c':
                real = maker.create_comment('c%d' % k)
            else:
                real = maker.create_processing_instruction('p%d' % k, 'x')
            self.add(real, kind, doc)
        self.attr = self.docs[0].real.create_attribute('fill')
        self.count = 0

    def add(self, real, kind, own):
        n = N(real, kind, own)
        n.name = len(self.nodes)
        self.nodes.append(n)
        return n

    def roots(self):
        return [k for d in self.docs for k in d.kids if k.kind == 'e']

    def movable(self):
        """Nodes other than the document elements."""
        r = self.roots()
        return [n for n in self.nodes if n not in r]

    def unlink(self, n):
        if n.parent is not None:
            n.parent.kids.remove(n)
            n.parent = None
        for d in self.docs:
            if n in d.kids:
                d.kids.remove(n)

    def put(self, parent, index, n):
        """index counts after n has been taken away"""
        self.unlink(n)
        parent.kids.insert(index, n)
        n.parent = parent
        n.attach(parent.owner())

    def at(self, parent, ref):
        return len(parent.kids) if ref is None else parent.kids.index(ref)


def elements(w):
    return [n for n in w.nodes if n.kind == 'e']


def compare(m, w, hist):
    for d in w.docs:
        real = d.real
        m.check('document-children', len(real.child_nodes) == len(d.kids)
                and all(a is b.real for a, b in zip(real.child_nodes, d.kids)), lambda: (d.name, real.child_nodes, d.kids, hist))
        root = next((k for k in d.kids if k.kind == 'e'), None)
        m.check('document-children', real.document_element is (root.real if root else None)
                and [c for c in real.children] == ([root.real] if root else [])
                and real.first_child is (d.kids[0].real if d.kids else None)
                and real.last_child is (d.kids[-1].real if d.kids else None)
                and len(real) == len(d.kids) and real.has_child_nodes() == bool(d.kids), lambda: (d.name, hist))
        for k, n in enumerate(d.kids):
            if root is not None:
                prev = d.kids[k - 1].real if k else None
                nxt = d.kids[k + 1].real if k + 1 < len(d.kids) else None
                m.check('siblings', n.real.previous_sibling is prev and n.real.next_sibling is nxt, lambda: (n, hist))
            m.check('owner', n.real.owner_document is real and n.real in real, lambda: (n, hist))
            if root is not None:
                m.check('root', n.real.get_root_node() is root.real, lambda: (n, hist))
    placed = set(id(k) for d in w.docs for k in d.kids)
    for n in w.nodes:
        real = n.real
        kids = real.child_nodes
        m.check('children', len(kids) == len(n.kids) and all(a is b.real for a, b in zip(kids, n.kids)),
                lambda: (n, kids, n.kids, hist))
        want = n.parent.real if n.parent else None
        m.check('parent', real.parent_node is want and real.parent_element is want, lambda: (n, real.parent_node, hist))
        own = n.owner()
        m.check('owner', real.owner_document is (own.real if own else None), lambda: (n, real.owner_document, hist))
        if n.kind == 'e':
            els = [k for k in n.kids if k.kind == 'e']
            m.check('children', [id(x) for x in real.children] == [id(k.real) for k in els]
                    and real.child_element_count == len(els)
                    and real.first_child is (n.kids[0].real if n.kids else None)
                    and real.last_child is (n.kids[-1].real if n.kids else None)
                    and real.first_element_child is (els[0].real if els else None)
                    and real.last_element_child is (els[-1].real if els else None)
                    and real.has_child_nodes() == bool(n.kids), lambda: (n, hist))
            m.check('text', (real.text or '') == n.text, lambda: (n, real.text, n.text, hist))
        m.check('text', (real.tail or '') == n.tail, lambda: (n, 'tail', real.tail, n.tail, hist))
        if id(n) in placed:
            continue
        m.check('root', real.get_root_node() is (n.root().real), lambda: (n, hist)) if n.root().kind == 'e' or \
            id(n.root()) not in placed else None
        if n.parent is None:
            m.check('siblings', real.previous_sibling is None and real.next_sibling is None, lambda: (n, hist))
            continue
        ks = n.parent.kids
        k = ks.index(n)
        prev, nxt = (ks[k - 1].real if k else None), (ks[k + 1].real if k + 1 < len(ks) else None)
        m.check('siblings', real.previous_sibling is prev and real.next_sibling is nxt, lambda: (n, hist))
        pe = next((x.real for x in reversed(ks[:k]) if x.kind == 'e'), None)
        ne = next((x.real for x in ks[k + 1:] if x.kind == 'e'), None)
        m.check('siblings', real.previous_element_sibling is pe and real.next_element_sibling is ne, lambda: (n, hist))


def preorder(n):
    out = [n]
    for k in n.kids:
        out += preorder(k)
    return out


def walk(m, w, rng, hist):
    """Iteration goes through the tree in document order."""
    for d in w.docs:
        want = [x for k in d.kids for x in preorder(k)]
        m.check('iterate', [id(x) for x in d.real] == [id(k.real) for k in d.kids], lambda: (d.name, hist))
        m.check('iterate', [id(x) for x in d.real.iter()] == [id(x.real) for x in want], lambda: (d.name, list(d.real.iter()), want, hist))
        tags = [rng.choice(['{*}' + t for t in TAGS] + ['*']) for _ in range(rng.randint(1, 3))]
        names = [x.real.local_name for x in want if x.kind == 'e']
        some = [id(x.real) for x in want if x.kind == 'e' and ('*' in tags or '{*}' + x.real.local_name in tags)]
        m.check('iterate.tags', [id(x) for x in d.real.iter(*tags)] == some, lambda: (tags, names, hist))
        m.check('iterate.tags', [id(x) for x in d.real.iter(tag=tags[0])]
                == [id(x.real) for x in want if x.kind == 'e' and tags[0] in ('*', '{*}' + x.real.local_name)], lambda: (tags, names, hist))
    n = rng.choice(elements(w))
    m.check('iterate', [id(x) for x in n.real.iter()] == [id(x.real) for x in preorder(n)], lambda: (n, hist))
    m.check('iterate', [id(x) for x in n.real] == [id(x.real) for x in n.kids], lambda: (n, hist))


def step(m, w, hist):
    rng = w.rng
    es = elements(w)
    p = rng.choice([x for x in es if x.own is not None])    # nothing is put into an element without document
    mv = w.movable()
    n = rng.choice(mv) if mv else None
    ops = ['append_child', 'append', 'append_many', 'prepend', 'prepend_many', 'insert', 'insert_before', 'remove_child',
           'remove', 'remove_self', 'replace_child', 'replace', 'extend', 'addnext', 'addprevious', 'sub_element',
           'text_content', 'bad_ancestor', 'bad_reference', 'bad_kind', 'leaf', 'doc_append', 'doc_prepend', 'doc_insert',
           'doc_insert_before', 'doc_remove', 'doc_replace', 'doc_bad', 'doc_root', 'append_text', 'prepend_text']
    op = rng.choice(ops)
    if n is None:
        op = 'sub_element'
    legal = n is not None and not p.inside(n)
    simple = op in ('append_child', 'append', 'prepend', 'insert', 'insert_before', 'extend', 'addnext', 'addprevious',
                    'replace', 'replace_child')
    if simple and not legal:
        op = 'bad_ancestor'
    hist.append((op, str(p), str(n)))
    m.event(op, str(p), str(n))
    m.saw('op-' + op)
    if op == 'append_child':
        m.check('returns', p.real.append_child(n.real) is n.real, hist)
        w.put(p, len(p.kids) - (n in p.kids), n)
    elif op == 'append':
        p.real.append(n.real)
        w.put(p, len(p.kids) - (n in p.kids), n)
    elif op == 'extend':
        ks = [k for k in rng.sample(mv, min(len(mv), rng.randint(0, 3))) if not p.inside(k)]
        seq = [k.real for k in ks]
        p.real.extend(rng.choice([list, tuple, iter])(seq))
        for k in ks:
            w.put(p, len(p.kids) - (k in p.kids), k)
    elif op in ('append_many', 'append_text'):
        ks = [k for k in rng.sample(mv, min(len(mv), rng.randint(0, 3))) if not p.inside(k)]
        items = []
        mixed = op == 'append_text'
        for k in ks:
            # a string goes after the nodes that precede it; the current last child is not moved past a string
            if mixed and rng.random() < 0.6 and not (p.kids and p.kids[-1] in ks):
                items.append('t%d ' % rng.randrange(100))
            items.append(k)
        if mixed and (rng.random() < 0.8 or not items):
            items.append('u%d ' % rng.randrange(100))
        p.real.append(*[x if isinstance(x, str) else x.real for x in items])
        for x in items:
            if isinstance(x, str):
                if p.kids:
                    p.kids[-1].tail += x
                else:
                    p.text += x
            else:
                w.put(p, len(p.kids) - (x in p.kids), x)
        hist.append([str(x) for x in items])
    elif op in ('prepend', 'prepend_many', 'prepend_text'):
        ks = [n] if op == 'prepend' else [k for k in rng.sample(mv, min(len(mv), rng.randint(0, 3))) if not p.inside(k)]
        ks = [k for k in ks if not k.tail and not any(y.tail for y in ks)]
        if p.kids and any(k in p.kids for k in ks) and op == 'prepend_text':
            ks = [k for k in ks if k not in p.kids]
        items = []
        for k in ks:
            if op == 'prepend_text' and rng.random() < 0.5:
                items.append('t%d ' % rng.randrange(100))
            items.append(k)
        if op == 'prepend_text' and rng.random() < 0.7:
            items.append('u%d ' % rng.randrange(100))
        p.real.prepend(*[x if isinstance(x, str) else x.real for x in items])
        hist.append([str(x) for x in items])
        for k in ks:
            w.unlink(k)
        old, p.text = p.text, ''
        pos = 0
        for x in items:
            if isinstance(x, str):
                if pos:
                    p.kids[pos - 1].tail += x
                else:
                    p.text += x
            else:
                w.put(p, pos, x)
                pos += 1
        if pos:
            p.kids[pos - 1].tail += old
        else:
            p.text += old
    elif op == 'insert':
        k = rng.randint(-len(p.kids), len(p.kids) + 2)
        p.real.insert(k, n.real)
        # lxml places the node before the child that has the index at the time of the call
        ref = p.kids[k] if k < len(p.kids) else None
        if ref is n:
            k = p.kids.index(n)
            ref = p.kids[k + 1] if k + 1 < len(p.kids) else None
        w.unlink(n)
        w.put(p, w.at(p, ref), n)
    elif op == 'insert_before':
        ref = rng.choice(p.kids + [None])
        r = p.real.insert_before(n.real, ref.real if ref else None)
        m.check('returns', r is n.real, hist)
        if ref is n:
            k = p.kids.index(n)
            ref = p.kids[k + 1] if k + 1 < len(p.kids) else None
        w.unlink(n)
        w.put(p, w.at(p, ref), n)
    elif op in ('remove_child', 'remove'):
        if not p.kids:
            return op
        c = rng.choice(p.kids)
        r = getattr(p.real, op)(c.real)
        if op == 'remove_child':
            m.check('returns', r is c.real, hist)
        w.unlink(c)
    elif op == 'remove_self':
        if n.kind != 'e' or n.parent is None:
            return op
        n.real.remove()
        w.unlink(n)
    elif op in ('replace_child', 'replace'):
        if not p.kids:
            return op
        c = rng.choice(p.kids)
        if op == 'replace_child':
            m.check('returns', p.real.replace_child(n.real, c.real) is c.real, hist)
        else:
            p.real.replace(c.real, n.real)
        if c is not n:
            k = p.kids.index(c)
            ref = next((x for x in p.kids[k + 1:] if x is not n), None)
            w.unlink(c)
            w.unlink(n)
            w.put(p, w.at(p, ref), n)
    elif op in ('addnext', 'addprevious'):
        if not p.kids:
            return op
        c = rng.choice(p.kids)
        if c is n:
            return op
        getattr(c.real, op)(n.real)
        w.unlink(n)
        w.put(p, p.kids.index(c) + (op == 'addnext'), n)
        n.attach(c.owner())
    elif op == 'sub_element':
        if len(w.nodes) > 16:
            return op
        k = rng.choice([None, 0, 1, len(p.kids)])
        real = p.real.create_sub_element(rng.choice(TAGS), index=k) if k is not None \
            else p.real.create_sub_element(rng.choice(TAGS))
        c = w.add(real, 'e', None)
        w.put(p, len(p.kids) if k is None else min(k, len(p.kids)), c)
    elif op == 'text_content':
        t = 'text%d' % rng.randrange(100)
        p.real.text_content = t
        for c in list(p.kids):
            w.unlink(c)
        p.text = t
    elif op == 'append_text0':
        pass
    elif op == 'bad_ancestor':
        bad = [(a, b) for a in es for b in es if a.inside(b)]
        a, b = rng.choice(bad)
        fs = [lambda: a.real.append(b.real), lambda: a.real.append_child(b.real), lambda: a.real.insert(0, b.real),
              lambda: a.real.insert_before(b.real, None), lambda: a.real.extend([b.real]), lambda: a.real.prepend(b.real)]
        if a.kids:
            fs += [lambda: a.real.replace(a.kids[0].real, b.real), lambda: a.kids[0].real.addnext(b.real),
                   lambda: a.real.replace_child(b.real, a.kids[-1].real), lambda: a.kids[-1].real.addprevious(b.real)]
        m.raises('rejected', (HierarchyRequestError, ValueError), rng.choice(fs), hist)
    elif op == 'bad_reference':
        c = rng.choice([x for x in w.nodes if x not in p.kids and x is not p])  # not a child of p
        q = rng.choice(mv)
        fs = [lambda: p.real.insert_before(q.real, c.real), lambda: p.real.replace_child(q.real, c.real),
              lambda: p.real.replace(c.real, q.real), lambda: p.real.remove_child(c.real), lambda: p.real.remove(c.real)]
        m.raises('rejected', NotFoundError, rng.choice(fs), hist)
    elif op == 'bad_kind':
        x = rng.choice([w.attr, w.docs[0].real, w.docs[1].real])
        fs = [lambda: p.real.append(x), lambda: p.real.append_child(x), lambda: p.real.insert(0, x),
              lambda: p.real.insert_before(x, None), lambda: p.real.prepend(x), lambda: p.real.extend([x]),
              lambda: p.real.addnext(x), lambda: p.real.addprevious(x)]
        if p.kids:
            fs += [lambda: p.real.replace(p.kids[0].real, x), lambda: p.real.replace_child(x, p.kids[-1].real)]
        m.raises('rejected', HierarchyRequestError, rng.choice(fs), hist)
    elif op == 'leaf':
        ls = [x for x in w.nodes if x.kind != 'e']
        if not ls:
            return op
        x = rng.choice(ls)
        q = rng.choice(w.nodes)
        fs = [lambda: x.real.append(q.real), lambda: x.real.append_child(q.real), lambda: x.real.insert(0, q.real),
              lambda: x.real.insert_before(q.real, None), lambda: x.real.extend([q.real]), lambda: x.real.remove(q.real),
              lambda: x.real.remove_child(q.real), lambda: x.real.replace(q.real, q.real),
              lambda: x.real.replace_child(q.real, q.real)]
        m.raises('rejected', HierarchyRequestError, rng.choice(fs), hist)
    else:
        doc_step(m, w, hist, op)
    return op


def doc_step(m, w, hist, op):
    rng = w.rng
    d = rng.choice(w.docs)
    root = next((k for k in d.kids if k.kind == 'e'), None)
    leaves = [x for x in w.nodes if x.kind != 'e' and not x.tail]
    hist.append(d.name)

    def place(x, ref):
        w.unlink(x)
        d.kids.insert(len(d.kids) if ref is None else d.kids.index(ref), x)
        x.attach(d)
    if root is None:
        # a document without an element takes an element first
        for x in leaves[:1]:
            m.raises('rejected', HierarchyRequestError, lambda: rng.choice([d.real.append, d.real.prepend])(x.real), hist)
        cand = [x for x in w.nodes if x.kind == 'e' and x not in w.roots() and not x.tail]
        if not cand:
            return
        x = rng.choice(cand)
        k = rng.randrange(4)
        if k == 0:
            m.check('returns', d.real.append_child(x.real) is x.real, hist)
        elif k == 1:
            d.real.append(x.real)
        elif k == 2:
            d.real.insert(0, x.real)
        else:
            d.real.prepend(x.real)
        w.unlink(x)
        d.kids = [x]
        x.attach(d)
        return
    if op == 'doc_root':
        if len(d.kids) > 1:
            return
        r = d.real.remove_child(root.real)
        m.check('returns', r is root.real, hist)
        d.kids = []
        return
    if op == 'doc_bad':
        x = rng.choice([y for y in w.nodes if y.kind == 'e' and y is not root and not root.inside(y)] or [None])
        out = [y for y in w.nodes if y not in d.kids]
        c = rng.choice(out) if out else None
        fs = [lambda: d.real.append('text'), lambda: d.real.prepend('text'), lambda: d.real.append(w.attr),
              lambda: d.real.insert(0, w.attr), lambda: d.real.prepend(w.attr), lambda: d.real.insert_before(w.attr, root.real)]
        kinds = (HierarchyRequestError,)
        if x is not None and rng.random() < 0.5:
            fs = [lambda: d.real.append(x.real), lambda: d.real.prepend(x.real), lambda: d.real.insert(0, x.real),
                  lambda: d.real.insert_before(x.real, root.real)]
            kinds = (HierarchyRequestError, TypeError)
        elif c is not None and leaves and rng.random() < 0.5:
            y = rng.choice(leaves)
            fs = [lambda: d.real.insert_before(y.real, c.real), lambda: d.real.remove(c.real),
                  lambda: d.real.replace(c.real, y.real), lambda: d.real.replace_child(y.real, c.real)]
            kinds = (NotFoundError,)
        m.raises('rejected', kinds, rng.choice(fs), hist)
        return
    if op == 'doc_remove':
        ks = [x for x in d.kids if x is not root]
        if ks:
            x = rng.choice(ks)
            rng.choice([d.real.remove, d.real.remove_child])(x.real)
            w.unlink(x)
        return
    if not leaves:
        return
    x = rng.choice(leaves)
    if op == 'doc_append':
        ks = rng.sample(leaves, min(len(leaves), rng.randint(1, 3)))
        rng.choice([lambda: d.real.append(*[k.real for k in ks]), lambda: d.real.extend([k.real for k in ks]),
                    lambda: d.real.extend(iter([k.real for k in ks]))])()
        for k in ks:
            place(k, None)
    elif op == 'doc_prepend':
        ks = rng.sample(leaves, min(len(leaves), rng.randint(1, 3)))
        d.real.prepend(*[k.real for k in ks])
        for k in ks:
            w.unlink(k)
        ref = d.kids[0]
        for k in ks:
            place(k, ref)
    elif op == 'doc_insert':
        k = rng.randint(-len(d.kids), len(d.kids) + 1)
        d.real.insert(k, x.real)
        ref = d.kids[k] if k < len(d.kids) else None
        if ref is x:
            return
        place(x, ref)
    elif op == 'doc_insert_before':
        ref = rng.choice(d.kids + [None])
        m.check('returns', d.real.insert_before(x.real, ref.real if ref else None) is x.real, hist)
        if ref is x:
            return
        place(x, ref)
    elif op == 'doc_replace':
        ks = [y for y in d.kids if y is not root]
        if not ks:
            return
        c = rng.choice(ks)
        if rng.random() < 0.5:
            m.check('returns', d.real.replace_child(x.real, c.real) is c.real, hist)
        else:
            d.real.replace(c.real, x.real)
        if c is not x:
            place(x, c)
            w.unlink(c)


def case(m, rng, i):
    w = World(rng)
    hist = []
    # most histories start from a tree of some size
    for k in range(rng.randint(0, len(w.nodes))):
        p = rng.choice([x for x in elements(w) if x.own is not None])
        mv = [x for x in w.movable() if x.parent is None and not p.inside(x) and x.kind != 'd']
        if mv:
            x = rng.choice(mv)
            p.real.append_child(x.real)
            w.put(p, len(p.kids), x)
            hist.append(('setup', str(p), str(x)))
    look = vf.Glances(rng)
    if look(rng):
        compare(m, w, hist)
    for k in range(rng.randint(3, 14)):
        op = step(m, w, hist)
        if look(rng):
            compare(m, w, hist[-12:])
        m.state(op, len(w.nodes), sum(1 for n in w.nodes if n.parent is not None))
    compare(m, w, hist[-12:])
    walk(m, w, rng, hist[-12:])
    m.sample({'history': [str(h) for h in hist[-6:]]})


def root_replace(m, rng):
    """The known finding: what surrounds the document element is lost with it."""
    impl = SVGDOMImplementation()
    doc = impl.create_svg_document()
    c = doc.create_comment('before')
    doc.prepend(c)
    new = doc.create_element('svg')
    doc.replace(doc.document_element, new)
    if doc.child_nodes != [c, new]:
        m.check('root-replace', doc.child_nodes == [new] and doc.document_element is new, doc.child_nodes)
        m.finding('root-siblings-lost', doc.child_nodes)


def root_moved(m, rng):
    """The known finding: a document element moved into another element is still the document's."""
    impl = SVGDOMImplementation()
    doc, doc2 = impl.create_svg_document(), impl.create_svg_document()
    root = doc.document_element
    doc2.document_element.append(root)
    m.check('root-moved', root.parent_node is doc2.document_element and root.owner_document is doc2, root)
    if doc.document_element is not None:
        m.finding('root-moved-away', doc.child_nodes)


if __name__ == '__main__':
    vf.main(vf.Spec(
        'D01', case, quick=20000, thorough=400000, fixed=[root_replace, root_moved],
        rule='histories of up to 14 mutations over two documents and up to 16 nodes (elements, comments, processing '
             'instructions), legal and illegal; distinct = operation sequence with tree sizes',
        required=['children', 'parent', 'siblings', 'owner', 'root', 'text', 'document-children', 'returns', 'rejected', 'iterate', 'iterate.tags'],
        anchors=['svgpy/dom.py', 'svgpy/window.py'],
        assumptions=['the workload holds a reference to every node, so lxml keeps its Python object',
                     'removing the document element is exercised only on documents without other top-level nodes']))
