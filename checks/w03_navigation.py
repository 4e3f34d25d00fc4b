"""W03: navigation: the location names the loaded document, whatever its encoding and however it was reached."""
import atexit
import base64
import os
import posixpath
import shutil
import tempfile
import threading
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer
from urllib.parse import quote, unquote

import vf
from svgpy.url import URL
from svgpy.window import SVGDOMImplementation, Window

FOLDERS = ['', 'a', 'a/b', 'c d', 'a/\u00e9']
NAMES = ['x.svg', 'y z.svg', 'p%q.svg', '\u20ac.svg', 'm.svg', 'n#1.svg', 'o?.svg']
ENC = ['plain', 'bom', 'decl', 'latin', 'utf16', 'utf16-bare', 'standalone', 'comment']


def document(mark, text, enc):
    body = '<svg xmlns="http://www.w3.org/2000/svg" id="%s"><title>%s</title><g id="g"/></svg>' % (mark, text)
    if enc == 'plain':
        return body.encode()
    if enc == 'bom':
        return b'\xef\xbb\xbf' + body.encode()
    if enc == 'decl':
        return ('<?xml version="1.0" encoding="utf-8"?>\n' + body).encode()
    if enc == 'standalone':
        return ('<?xml version=\'1.0\' encoding=\'UTF-8\' standalone="no"?>\n' + body).encode()
    if enc == 'latin':
        return ('<?xml version="1.0" encoding="iso-8859-1"?>' + body).encode('iso-8859-1', 'xmlcharrefreplace')
    if enc == 'utf16':
        return ('<?xml version="1.0" encoding="utf-16"?>' + body).encode('utf-16')
    if enc == 'utf16-bare':
        return body.encode('utf-16')
    return ('<?xml version="1.0"?><!-- %s --><?pi x?>\n' % text + body).encode()


class Site:
    """The same files below a folder and on a server of the loopback network."""
    def __init__(self):
        self.top = tempfile.mkdtemp(prefix='w03')
        atexit.register(shutil.rmtree, self.top, True)
        self.pages = {}
        site = self

        class Handler(BaseHTTPRequestHandler):
            def do_GET(self):
                site.requests.append((self.server.base, self.headers['Host'], self.path))
                page = site.pages.get(unquote(self.path.split('?')[0]).lstrip('/'))
                if page is None:
                    self.send_error(404)
                    return
                self.send_response(200)
                if page['type']:
                    self.send_header('Content-Type', page['type'])
                self.send_header('Content-Length', str(len(page['data'])))
                self.end_headers()
                self.wfile.write(page['data'])

            def log_message(self, *args):
                pass
        self.requests = []
        while True:
            first = ThreadingHTTPServer(('127.0.0.1', 0), Handler)
            port = first.server_address[1]
            try:
                servers = [first, ThreadingHTTPServer(('127.0.0.2', port), Handler),
                           ThreadingHTTPServer(('127.0.0.1', 0), Handler)]
                break
            except OSError:
                first.server_close()
        self.bases = []
        for server in servers:
            threading.Thread(target=server.serve_forever, daemon=True).start()
            server.base = 'http://%s:%d' % server.server_address
            self.bases.append(server.base)
        self.http = self.bases[0]

    def write(self, rng, name, mark):
        text = rng.choice(['abc', 'caf\u00e9', '\u20ac \U0001f600', 'x &amp; y', ''])
        enc = rng.choice(ENC)
        data = document(mark, text, enc)
        ctype = rng.choice([None, 'image/svg+xml', 'application/xml'])
        if enc in ('plain', 'decl', 'standalone', 'comment') and rng.random() < 0.4:
            ctype = 'image/svg+xml; charset=' + rng.choice(['utf-8', 'UTF-8'])
        elif enc == 'latin' and rng.random() < 0.5:
            ctype = 'image/svg+xml;charset=iso-8859-1'
        elif enc == 'utf16' and rng.random() < 0.5:
            ctype = 'image/svg+xml;charset=utf-16'
        self.pages[name] = {'mark': mark, 'text': text.replace('&amp;', '&'), 'data': data, 'type': ctype, 'enc': enc}
        p = os.path.join(self.top, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(data)


def setup(m):
    m.site = Site()


def written(rng, path):
    """A spelling of a path in a URL."""
    out = quote(path, safe="/~-._" + ('\u00e9\u20ac ' if rng.random() < 0.5 else ''))
    if rng.random() < 0.2 and 'x' in out:
        out = out.replace('x', '%78')
    return out


def case(m, rng, i):
    site = m.site
    names = []
    for _ in range(rng.randint(2, 5)):
        folder = rng.choice(FOLDERS)
        name = posixpath.join(folder, rng.choice(NAMES))
        site.write(rng, name, 'd%d' % rng.randrange(10 ** 6))
        names.append(name)
    names = sorted(set(names))
    impl = SVGDOMImplementation()
    win = Window(impl)
    doc = win.document
    loc = doc.location
    m.check('one-location', win.location is loc, None)
    here = None                     # (scheme base, file name) of the loaded document
    query = frag = ''
    log = []
    for step in range(rng.randint(2, 9)):
        op = rng.choice(['absolute', 'absolute', 'relative', 'relative', 'rooted', 'blank', 'reload', 'hash', 'pathname', 'data', 'query',
                         'network', 'location', 'search', 'authority', 'authority', 'protocol'])
        old = doc.document_element
        name = rng.choice(names)
        how = rng.choice(['doc', 'win', 'assign', 'href'])
        if op in ('relative', 'rooted', 'hash', 'pathname', 'reload', 'query', 'network', 'search', 'authority', 'protocol') and here is None:
            op = 'absolute'
        if op in ('rooted', 'query', 'network', 'search', 'authority', 'protocol') and here[0] not in site.bases:
            op = 'relative'
        if op == 'absolute':
            where = rng.choice(site.bases + ['file://' + site.top] * 2)
            target = where + '/' + written(rng, name)
            here, query, frag = (where, name), '', ''
        elif op == 'location':
            other = SVGDOMImplementation().create_svg_document()
            other.location.href = site.http + '/' + written(rng, name)
            m.eq('other-document', other.document_element.id, site.pages[name]['mark'], log)
            target, how = other.location, rng.choice(['doc', 'win'])
            here, query, frag = (site.http, name), '', ''
        elif op == 'data':
            word = rng.choice(['t\u00e9xt', 'a,b', ',', 'x;base64,y', '%41', 'a b', '\u6f22,'])
            body = document('data', word, 'plain')
            form = rng.randrange(4)
            target = 'data:image/svg+xml;base64,' + base64.b64encode(body).decode() if form == 0 else \
                'data:image/svg+xml,' + quote(body, safe=rng.choice(['/', '/,;:=', ''])) if form == 1 else \
                'data:image/svg+xml;charset=utf-8,' + quote(body) if form == 2 else \
                'data:application/xml;charset=utf-8;base64,' + base64.b64encode(b'<?xml version="1.0" encoding="utf-8"?>' + body).decode()
            parsed = impl.parse(target)
            m.eq('data', (parsed.id, parsed[0].text, len(parsed)), ('data', word, 2), target)
            continue
        elif op == 'blank':
            target = 'about:blank'
            here, query, frag = None, '', ''
        elif op in ('relative', 'rooted', 'query', 'network'):
            if op == 'query':
                target = '?k=v%d' % step
                query, frag = target, ''
            else:
                if op == 'relative':
                    target = written(rng, posixpath.relpath(name, posixpath.dirname(here[1]) or '.'))
                    if ':' in target.split('/')[0]:
                        target = './' + target
                elif op == 'rooted':
                    target = '/' + written(rng, name)
                else:
                    base = rng.choice(site.bases)
                    here = (base, here[1])
                    target = base[5:] + '/' + written(rng, name)
                query = '?q=%d' % step if rng.random() < 0.3 and here[0] in site.bases else ''
                frag = '#f%d' % step if rng.random() < 0.3 else ''
                target += query + frag
                here = (here[0], name)
            how = rng.choice(['doc', 'win'])
        elif op == 'reload':
            site.write(rng, here[1], 'r%d' % rng.randrange(10 ** 6))
        elif op == 'hash':
            frag = rng.choice(['#h', '#h%20i', ''])
            how = rng.choice(['#', ''])
        elif op == 'pathname':
            prefix = site.top if here[0] not in site.bases else ''
            target = prefix + '/' + written(rng, name)
            here = (here[0], name)
        elif op == 'search':
            query = rng.choice(['?k=w%d' % step, '?e=%d&f=b%%2Bc' % step, ''])
            target = query if rng.random() < .5 else query[1:]
        elif op == 'protocol':
            target = rng.choice(['http', 'http:'])
        elif op == 'authority':
            base = rng.choice(site.bases)
            host, port = base[7:].split(':')
            old_host, old_port = here[0][7:].split(':')
            how = rng.choice([w for w in ('host', 'hostname', 'port')
                              if w == 'host' or (w == 'hostname' and port == old_port) or (w == 'port' and host == old_host)])
            target = {'host': base[7:], 'hostname': host, 'port': port}[how]
            here = (base, here[1])
        site.requests.clear()
        log.append((op, how, str(target) if op not in ('reload', 'hash', 'location') else frag))
        if op == 'reload':
            loc.reload()
        elif op == 'hash':
            loc.hash = frag[1:] if how == '' else frag
        elif op == 'pathname':
            loc.pathname = target
        elif op == 'search':
            loc.search = target
        elif op == 'protocol':
            loc.protocol = target
        elif op == 'authority':
            setattr(loc, how, target)
        elif how == 'doc':
            doc.location = target
        elif how == 'win':
            win.location = target
        elif how == 'assign':
            loc.assign(target)
        else:
            loc.href = target
        m.check('same-objects', win.document is doc and doc.location is loc and win.location is loc, log)
        root = doc.document_element
        if here is None:
            m.check('blank', root is None and doc.child_nodes == [], log)
            m.eq('uri', (loc.href, doc.document_uri, doc.url, loc.protocol, loc.origin, doc.origin),
                 ('about:blank', 'about:blank', 'about:blank', 'about:', 'null', 'null'), log)
            m.state(op, 'blank')
            continue
        want = site.pages[here[1]]
        uri = here[0] + '/' + quote(here[1], safe='/') + query + frag
        m.check('loaded', root is not None, log)
        m.eq('loaded', root.id, want['mark'], log)
        m.eq('loaded.text', root[0].text or '', want['text'], (log, want['enc']))
        m.check('loaded.owner', root.owner_document is doc and root.get_root_node() is root, log)
        m.check('loaded.only', [e for e in doc.children] == [root], log)
        m.check('loaded.fresh', root is not old, log)
        m.check('lookup', doc.get_element_by_id('g') is not None and doc.get_elements_by_tag_name('title') == [root[0]], log)
        m.eq('uri', unquote(loc.href), unquote(uri), log)
        m.eq('uri', (doc.document_uri, doc.url, loc.tostring()), (loc.href,) * 3, log)
        m.eq('parts', (loc.search, loc.hash), (query, frag), log)
        if here[0] in site.bases:
            if op != 'hash':
                m.eq('request', [(b, h, unquote(p)) for b, h, p in site.requests],
                     [(here[0], here[0][7:], unquote('/' + quote(here[1]) + query))], log)
            m.eq('authority', (loc.protocol, loc.host, loc.hostname, loc.port),
                 ('http:', here[0][7:]) + tuple(here[0][7:].split(':')), log)
        else:
            m.eq('authority', (loc.protocol, loc.host, loc.hostname, loc.port), ('file:', '', '', ''), log)
            m.eq('request', site.requests, [], log)
        m.eq('parts', unquote(loc.pathname), (site.top if here[0] not in site.bases else '') + '/' + here[1], log)
        m.eq('origin', (loc.origin, doc.origin), (here[0] if here[0] in site.bases else 'null',) * 2, log)
        m.eq('reread', URL(loc.href).href, loc.href, log)
        m.event('navigate', op, how, want['enc'])
        m.state(op, how if op != 'reload' else '', want['enc'], here[0][:4])


if __name__ == '__main__':
    vf.main(vf.Spec('W03', case, quick=5000, thorough=30000, setup=setup,
                    rule='random navigations over files of several encodings, on disk, and on a loopback server',
                    required=['loaded', 'loaded.text', 'uri', 'parts', 'origin', 'blank', 'lookup', 'request', 'authority', 'other-document', 'data'],
                    anchors=['svgpy/window.py', 'svgpy/url.py', 'svgpy/utils.py'],
                    assumptions=['only navigations to loadable, well-formed documents', 'the loopback network works']))
