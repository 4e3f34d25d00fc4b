"""C09: which style sheets apply, in which order, from where and in which encoding."""
import atexit
import base64
import os
import posixpath
import shutil
import tempfile
import threading
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer
from urllib.parse import quote, unquote

import vf
from svgpy.window import SVGDOMImplementation, Window

FOLDERS = ['', 'sub', 'sub/deep', 'other', 's p']
NAMES = ['a.css', 'b.css', 'c.css', 'd e.css', 'f\u00e9.css']
MEDIA = ['', '', '', 'all', 'screen', 'print', 'print, screen', '(min-width: 1px)', '(max-width: 1px)', 'not print']
PROPS = ['fill', 'stroke', 'stop-color', 'flood-color', 'font-family']
INITIAL = {'fill': 'black', 'stroke': 'none', 'stop-color': 'black', 'flood-color': 'black'}
ENC = ['utf-8', 'utf-8', 'bom', 'charset', 'utf-16', 'header']
DEAD = ['missing.css', 'no/such/file.css', 'http://[bad/x.css', 'data:text/css;base64,!', 'foo:bar', 'http://127.0.0.1:1/x.css', '../../../../../gone.css']


def applies(media, shown):
    return {'': True, 'all': True, 'screen': shown == 'screen', 'print': shown == 'print', 'print, screen': True, '(min-width: 1px)': True,
            '(max-width: 1px)': False, 'not print': shown != 'print'}[media]


class Site:
    def __init__(self):
        self.top = tempfile.mkdtemp(prefix='c09')
        atexit.register(shutil.rmtree, self.top, True)
        self.types = {}
        site = self

        class Handler(BaseHTTPRequestHandler):
            def do_GET(self):
                name = unquote(self.path.split('?')[0]).lstrip('/')
                path = os.path.join(site.top, name)
                if '..' in name or not os.path.isfile(path):
                    self.send_error(404)
                    return
                with open(path, 'rb') as f:
                    data = f.read()
                self.send_response(200)
                self.send_header('Content-Type', site.types.get(name) or 'text/css')
                self.send_header('Content-Length', str(len(data)))
                self.end_headers()
                self.wfile.write(data)

            def log_message(self, *args):
                pass
        self.server = ThreadingHTTPServer(('127.0.0.1', 0), Handler)
        threading.Thread(target=self.server.serve_forever, daemon=True).start()
        self.http = 'http://127.0.0.1:%d' % self.server.server_address[1]

    def clear(self):
        self.types = {}
        for name in os.listdir(self.top):
            p = os.path.join(self.top, name)
            shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)

    def write(self, name, data, ctype=None):
        p = os.path.join(self.top, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(data)
        self.types[name] = ctype


def setup(m):
    m.site = Site()


class World:
    """The sheets of one case: name -> (items, encoding); an item is ('import', name or None, media) or ('rule', prop, value)
    or ('media', media, prop, value)."""
    def __init__(self, m, rng):
        self.m, self.rng, self.site = m, rng, m.site
        self.over = rng.choice(['file', 'file', 'http'])
        self.base = self.site.http if self.over == 'http' else 'file://' + self.site.top
        self.n = 0
        self.sheets = {}
        names = sorted({posixpath.join(rng.choice(FOLDERS), rng.choice(NAMES)) for _ in range(rng.randint(1, 5))})
        self.names = names
        for name in names:
            enc = rng.choice(ENC)
            if enc == 'header' and self.over != 'http':
                enc = 'charset'
            self.sheets[name] = (self.items(2), enc)

    def value(self, prop):
        self.n += 1
        if prop == 'font-family':
            return '"f\u00e9%d"' % self.n
        return '#%06x' % (0x100000 + self.n)

    def items(self, imports):
        rng = self.rng
        out = []
        for _ in range(rng.randint(0, imports)):
            out.append(('import', self.sheet(), rng.choice(MEDIA)))
        for _ in range(rng.randint(0, 3)):
            p = rng.choice(PROPS)
            if rng.random() < 0.2:
                out.append(('media', rng.choice(MEDIA[4:]), p, self.value(p)))
            else:
                out.append(('rule', p, self.value(p)))
        return out

    def inline(self):
        """A sheet written as a data: URL: (url, items)."""
        rng = self.rng
        items = [it for it in self.items(0)]
        text = rng.choice(['', '', '@charset "iso-8859-1";', '@charset "utf-16";']) + self.css(items, '')
        kind = rng.choice(['', 'text/css', 'text/css;charset=utf-8', 'TEXT/CSS', 'base64'])
        if kind == 'base64':
            text = text[text.index(';') + 1:] if text.startswith('@charset') else text
            return 'data:text/css;charset=utf-8;base64,' + quote(base64.b64encode(text.encode()).decode()), items
        return 'data:%s,%s' % (kind, quote(text, safe=rng.choice(['', ',;:{}@']))), items

    def sheet(self):
        """A sheet to refer to: by its name, written in place, or missing."""
        r = self.rng.random()
        return self.rng.choice(self.names) if r < 0.75 else self.inline() if r < 0.87 else None

    def ref(self, name, here):
        """A reference to the sheet, written in a document or sheet called here."""
        rng = self.rng
        if name is None:
            return rng.choice(DEAD)
        if isinstance(name, tuple):
            return name[0]
        r = rng.random()
        q = quote(name)
        if r < 0.15:
            return self.base + '/' + q
        if r < 0.3:
            root = '' if self.over == 'http' else self.site.top
            return root + '/' + q
        rel = quote(posixpath.relpath(name, posixpath.dirname(here) or '.'))
        if rng.random() < 0.2:
            rel = './' + rel
        if self.over == 'http' and rng.random() < 0.1:
            rel += '?x=%d' % self.n
        return rel

    def css(self, items, here):
        rng = self.rng
        out = ''
        for it in items:
            if it[0] == 'import':
                r = self.ref(it[1], here)
                r = rng.choice(['"%s"', "'%s'", 'url("%s")', 'url( \'%s\' )']) % r
                out += '%s %s%s;' % (rng.choice(['@import', '@import', '@IMPORT']), r, ' ' + it[2] if it[2] else '')
            elif it[0] == 'media':
                out += '@media %s{#a{%s:%s}}' % (it[1], it[2], it[3])
            else:
                out += rng.choice(['#a{%s:%s}', '#a { %s : %s; }', '#b, #a{%s:%s;}', '/* #a{} */#a{%s:%s}']) % it[1:]
            out += rng.choice(['', '\n', ' '])
        return out

    def save(self):
        for name, (items, enc) in self.sheets.items():
            text = self.css(items, name)
            ctype = None
            if enc == 'bom':
                data = b'\xef\xbb\xbf' + text.encode()
            elif enc == 'charset':
                data = ('@charset "iso-8859-1";' + text).encode('iso-8859-1')
            elif enc == 'utf-16':
                data = text.encode('utf-16')
            elif enc == 'header':
                data, ctype = text.encode('iso-8859-1'), 'text/css; charset=iso-8859-1'
            else:
                data = text.encode()
            self.site.write(name, data, ctype)

    def flat(self, items, shown, above):
        """The (property, value) pairs of the items in order; above are the sheets being read."""
        out = []
        for it in items:
            if it[0] == 'rule':
                out.append(it[1:])
            elif it[0] == 'media':
                if applies(it[1], shown):
                    out.append(it[2:])
            elif isinstance(it[1], tuple):
                if applies(it[2], shown):
                    out += self.flat(it[1][1], shown, above)
            elif it[1] is not None and it[1] not in above and applies(it[2], shown):
                out += self.flat(self.sheets[it[1]][0], shown, above | {it[1]})
        return out


def esc(t):
    return t.replace('&', '&amp;').replace('<', '&lt;').replace('"', '&quot;')


def case(m, rng, i):
    m.site.clear()
    w = World(m, rng)
    w.save()
    here = posixpath.join(rng.choice(FOLDERS), 'doc.svg')
    top, body, sources = '', '', []      # sources: (kind, items, media, name or None)

    def source(in_doc):
        kind = rng.choice(['link', 'link', 'style', 'style', 'off'] if in_doc else ['pi', 'pi', 'pi-off'])
        media = rng.choice(MEDIA)
        name = w.sheet()
        attr = ' media="%s"' % media if media or rng.random() < 0.3 else ''
        href = esc(w.ref(name, here))
        used = True
        if kind in ('pi', 'pi-off'):
            if kind == 'pi-off':
                attr += ' alternate="yes"'
                used = False
            text = '<?xml-stylesheet type="text/css" href="%s"%s?>' % (href, attr)
        elif kind == 'link':
            rel = rng.choice(['rel="stylesheet"', 'rel="stylesheet"', 'rel="author stylesheet"', 'rel="preload" as="style"', 'rel="stylesheet" as="font"', 'rel="next stylesheet" as=""'])
            text = '<link %s href="%s"%s/>' % (rel, href, attr)
        elif kind == 'style':
            items = w.items(2)
            css = w.css(items, here).replace('&', '&amp;').replace('<', '&lt;')
            if rng.random() < 0.3:
                css = '<![CDATA[%s]]>' % css
            elif rng.random() < 0.3 and items:
                css = '<!-- #a{fill:#ffffff} -->' + css + '<!-- x -->'
            text = '<style%s%s>%s</style>' % (rng.choice(['', ' type="text/css"']), attr, css)
            return text, (kind, items, media, None)
        else:
            text = rng.choice(['<link rel="alternate stylesheet" href="%s"/>' % href, '<link rel="icon" href="%s"/>' % href,
                               '<link rel="preload" as="image" href="%s"/>' % href, '<link href="%s"/>' % href,
                               '<link rel="stylesheet"/>', '<link rel="stylesheet" href=""/>', '<style type="text/x">#a{fill:#ffffff}</style>',
                               '<style/>', '<style> </style>'])
            used = False
        return text, (kind, [('import', name, '')] if used else [], media, name)

    for _ in range(rng.choice([0, 0, 1, 2])):
        t, s = source(False)
        top += t
        sources.append(s)
    for _ in range(rng.randint(1, 4)):
        t, s = source(True)
        body += rng.choice(['%s', '<defs>%s</defs>', '<g><title/>%s</g>']) % t
        sources.append(s)
    late = rng.random() < 0.5
    a = '<g id="a"/>'
    src = top + '<svg xmlns="http://www.w3.org/2000/svg">%s%s</svg>' % ((body, a) if late else (a, body))
    m.site.write(here, src.encode(), 'image/svg+xml')
    win = Window(SVGDOMImplementation())
    win.location = w.base + '/' + quote(here)
    element = win.document.get_element_by_id('a')
    m.check('loaded', element is not None, src)
    ctx = (w.over, here, src, w.sheets)

    def read(tag, ctx):
        for shown in rng.sample(['screen', 'print'], rng.choice([1, 2])):
            win.screen.media = shown
            want = {}
            for s in sources:
                if applies(s[2], shown):
                    for p, v in w.flat(s[1], shown, frozenset()):
                        want[p] = v
            style = element.get_computed_style()
            got = {p: style[p] for p in PROPS}
            for p in PROPS:
                if p == 'font-family':
                    if p in want:
                        m.eq(tag + '.text', [x.strip('"') for x in got[p]], [want[p].strip('"')], (shown, ctx))
                else:
                    m.eq(tag + '.value', got[p], want.get(p, INITIAL[p]), (p, shown, ctx))
            m.state(tag, w.over, [s[0] for s in sources], sorted(want))
            for s in sources:
                m.saw('source.' + s[0])

    read('load', ctx)
    # the document changes
    for _ in range(rng.choice([0, 1, 2])):
        holders = [e for e in win.document.document_element.iter('{*}link', '{*}style')]
        first = len(sources) - len(holders)
        if holders and rng.random() < 0.4:
            k = rng.randrange(len(holders))
            holders[k].parent_node.remove_child(holders[k])
            del sources[first + k]
            read('removed', (ctx, k))
        elif rng.random() < 0.5:
            items = w.items(1)
            e = win.document.create_element_ns('http://www.w3.org/2000/svg', 'style')
            e.text = w.css(items, here) or ' '
            win.document.document_element.append_child(e)
            sources.append(('style', items, '', None))
            read('added', (ctx, e.text))
        else:
            name = rng.choice(w.names)
            w.sheets[name] = (w.items(2), rng.choice(['utf-8', 'bom', 'charset']))
            w.save()
            read('rewritten', (ctx, name, w.sheets))


if __name__ == '__main__':
    vf.main(vf.Spec('C09', case, quick=1600, thorough=30000, setup=setup,
                    rule='folders of up to five sheets importing one another (cycles included), reached over file: and http: by '
                         'processing instructions, link and style elements; sheets, elements and media changed afterwards',
                    required=['load.value', 'load.text', 'removed.value', 'added.value', 'rewritten.value', 'source.pi', 'source.link',
                              'source.style', 'source.off'],
                    anchors=['svgpy/style.py', 'svgpy/css/__init__.py'],
                    assumptions=['@import comes first in a sheet', 'alternative style sheets cannot be chosen']))
