"""T01: the addressable characters of text elements."""
import re
import unicodedata

import vf
from svgpy import SVGParser, Window
from svgpy.window import SVGDOMImplementation
from xml.sax.saxutils import escape

NS = 'http://www.w3.org/2000/svg'
WIN = []
COLLAPSE = ('normal', 'nowrap', 'pre-line')
WORDS = ['a', 'bc', 'Def', 'x', 'é', 'Ω', '\u05d0\u05d1', '\U0001F600', '1', '.', 'w\u0301', '\u00a0', '\u2003', '-']
WIDE = ['\u1112', '\u11ff', '\u3131', '\ud7a3', '\uac00', '\u6f22', '\uff21', '\u3042', '\uff71', '\u200b', '\u200b', '\ud55c', 'a', ' ']


class N(object):
    """A node of the generated document."""

    def __init__(self, kind, **kw):
        self.kind = kind              # 'tspan', 'text', 'chars', 'other', 'comment', 'pi'
        self.kids = []
        self.ws = None
        self.display = True
        self.data = ''
        self.name = kind
        self.id = None
        self.__dict__.update(kw)


def chars(rng, wide):
    out = []
    for _ in range(rng.randint(0, 5)):
        k = rng.random()
        if k < 0.45:
            out.append(rng.choice(WIDE if wide else WORDS))
        elif k < 0.75:
            out.append(' ' * rng.choice([1, 1, 1, 2, 3]))
        elif k < 0.85:
            out.append('\t')
        else:
            out.append(rng.choice(['\n', '\n', '\n', '\n\n', '\r', '\r\n', '\n\r\n']))
    return ''.join(out)


def tree(rng, kind, depth, budget, ids, wide, mixed):
    n = N(kind)
    n.id = 'e%d' % len(ids)
    ids.append(n)
    if kind == 'text' or (mixed and rng.random() < 0.4):
        n.ws = rng.choice(['normal', 'normal', 'normal', 'nowrap', 'pre', 'pre-wrap', 'pre-line', None])
        if wide is None and n.ws == 'pre-line':
            n.ws = 'normal'
    if kind != 'text' and rng.random() < 0.12:
        n.display = False
    if wide is not None:
        n.kids.append(N('chars', data=chars(rng, wide)))
        return n
    for _ in range(rng.randint(0, 4)):
        k = rng.random()
        if k < 0.55:
            n.kids.append(N('chars', data=chars(rng, False)))
        elif k < 0.78 and depth < 3 and budget[0] > 0:
            budget[0] -= 1
            n.kids.append(tree(rng, 'tspan', depth + 1, budget, ids, None, mixed))
        elif k < 0.86:
            n.kids.append(N('comment', data=rng.choice(['c', ' ', '', 'x y'])))
        elif k < 0.9:
            n.kids.append(N('pi', data='d'))
        else:
            n.kids.append(N('other', name=rng.choice(['title', 'desc', 'rect', 'animate', 'set']), data=rng.choice(['', 'zz', ' z'])))
    return n


def markup(n):
    if n.kind == 'chars':
        return escape(n.data, {'\r': '&#13;'})
    if n.kind == 'comment':
        return '<!--%s-->' % n.data
    if n.kind == 'pi':
        return '<?p %s?>' % n.data
    if n.kind == 'other':
        return '<%s>%s</%s>' % (n.name, escape(n.data), n.name)
    a = ' id="%s"' % n.id
    if n.ws:
        a += ' style="white-space: %s"' % n.ws
    if not n.display:
        a += ' display="none"'
    return '<%s%s>%s</%s>' % (n.name, a, ''.join(markup(k) for k in n.kids), n.name)


def runs(n, ws='normal', chain=()):
    """The text nodes that are rendered: (data, white-space, chain of elements)."""
    if not n.display:
        return []
    ws = n.ws or ws
    chain = chain + (n,)
    out = []
    pending = ''
    for k in n.kids:
        if k.kind == 'chars':
            pending += k.data          # adjacent character data is one text node
            continue
        if pending:
            out.append((pending, ws, chain))
            pending = ''
        if k.kind in ('text', 'tspan'):
            out += runs(k, ws, chain)
    if pending:
        out.append((pending, ws, chain))
    return out


def wide_char(c):
    hangul = '\uac00' <= c <= '\ud7af' or '\u1100' <= c <= '\u11ff' or '\u3130' <= c <= '\u318f'
    return unicodedata.east_asian_width(c) in 'FWH' and not hangul


def breaks(data):
    return data.replace('\r\n', '\n').replace('\r', '\n')


def collapse(data, ws):
    """Phase one of the white space processing of one text node, character by character."""
    parts = breaks(data).split('\n')
    lines = [p if k == 0 else p.lstrip(' \t') for k, p in enumerate(parts)]
    lines = [p if k == len(parts) - 1 else p.rstrip(' \t') for k, p in enumerate(lines)]
    if ws == 'pre-line':
        out = '\n'.join(lines)
    else:
        out = lines[0]
        k = 1
        while k < len(lines):
            while k < len(lines) - 1 and lines[k] == '':
                k += 1                 # consecutive breaks are one
            nxt = lines[k]
            if out.endswith('\u200b') or nxt.startswith('\u200b'):
                pass
            elif out and nxt and wide_char(out[-1]) and wide_char(nxt[0]):
                pass
            else:
                out += ' '
            out += nxt
            k += 1
    out = out.replace('\t', ' ')
    res = ''
    for c in out:
        if c == ' ' and res.endswith(' '):
            continue
        res += c
    return res


def model(root):
    out = []                           # (char, collapsible, chain)
    for data, ws, chain in runs(root):
        if ws in COLLAPSE:
            for c in collapse(data, ws):
                if c == ' ' and (not out or (out[-1][0] == ' ' and out[-1][1])):
                    continue
                out.append((c, True, chain))
        else:
            out += [(c, False, chain) for c in breaks(data)]
    while out and out[-1][0] == ' ' and out[-1][1]:
        out.pop()
        break
    return out


def setup(tier, seed):
    pass


def load(n):
    if not WIN:
        WIN.append(Window(SVGDOMImplementation()))
    w = WIN[0]
    src = '<svg xmlns="%s"><g>%s</g></svg>' % (NS, markup(n))
    root = SVGParser().fromstring(src)
    w.document.replace_child(root, w.document.document_element)
    return w.document, src


def verify(m, doc, ids, root, src):
    want = model(root)
    before = doc.tostring(encoding='unicode')
    for n in ids:
        e = doc.get_element_by_id(n.id)
        ctx = lambda: (src, n.id)
        if e is None:
            m.fail('find', ctx())
        mine = ''.join(c for c, _, chain in want if n in chain)
        got = e.get_chars()
        m.eq('chars' if n.kind == 'text' else 'own', got or '', mine, ctx)
        m.eq('count', e.get_number_of_chars(), len(mine), ctx)
        m.state(n.kind, n.ws, len(mine) > 5, len(n.kids), n.display)
    m.eq('again', root and doc.get_element_by_id(root.id).get_chars(), ''.join(c for c, _, _ in want), src)
    m.eq('kept', doc.tostring(encoding='unicode'), before, 'changed by reading')


def case(m, rng, i):
    ids = []
    wide = rng.choice([True, True, False]) if rng.random() < 0.35 else None
    root = tree(rng, 'text', 0, [4], ids, wide, rng.random() < 0.3)
    doc, src = load(root)
    m.event(src)
    verify(m, doc, ids, root, src)
    # edit the document and read again
    if rng.random() < 0.6:
        n = rng.choice(ids)
        e = doc.get_element_by_id(n.id)
        k = rng.randrange(3)
        if k == 0:
            data = chars(rng, bool(wide))
            if not n.kids or n.kids[0].kind != 'chars':
                n.kids.insert(0, N('chars'))
                lead = n.kids[0]
            else:
                while len(n.kids) > 1 and n.kids[1].kind == 'chars':
                    n.kids.pop(1)
                lead = n.kids[0]
            lead.data = data
            e.text = data
        elif k == 1:
            t = N('tspan', id='new', kids=[N('chars', data='q ' if wide is None else 'q')])
            n.kids.append(t)
            ids.append(t)
            c = doc.create_element_ns(NS, 'tspan')
            c.set('id', 'new')
            c.text = t.kids[0].data
            e.append(c)
        elif n.kind != 'text':
            n.display = not n.display
            if n.display:
                del e.attrib['display']
            else:
                e.set('display', 'none')
        m.event('edit', k, n.id)
        m.saw('edited')
        verify(m, doc, ids, root, (src, 'edit', k, n.id, markup(root)))
    m.sample({'source': src, 'characters': ''.join(c for c, _, _ in model(root))})


if __name__ == '__main__':
    vf.main(vf.Spec(
        'T01', case, quick=800, thorough=30000,
        rule='text elements with up to 4 nested tspans, comments, processing instructions and other children, white space of every kind, '
             'wide and narrow characters, white-space values per element, display="none"; then edited and read again',
        required=['chars', 'own', 'count', 'again', 'kept', 'edited'],
        anchors=['svgpy/text.py', 'svgpy/core.py'],
        assumptions=['line breaks next to an element boundary between two wide characters are not generated',
                     'character references inside the characters are not generated: the library expands them, as its tests demand']))
