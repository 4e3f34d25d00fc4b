"""M01: case-insensitive maps, qualified names, content types and data: URLs."""
import base64
from urllib.parse import quote

import vf
from svgpy.exception import InvalidCharacterError, NamespaceError
from svgpy.url import URL
from svgpy.utils import CaseInsensitiveMapping, QualifiedName, dict_to_style, get_content_type, load, style_to_dict

WORDS = ['content-type', 'a', 'ab', 'X-Y', 'Content-Length', 'etag', 'b1', '', 'm\u00e9']
NS = {'html': 'http://www.w3.org/1999/xhtml', 'xlink': 'http://www.w3.org/1999/xlink',
      'xml': 'http://www.w3.org/XML/1998/namespace', 'xmlns': 'http://www.w3.org/2000/xmlns/',
      None: 'http://www.w3.org/2000/svg'}


def key(rng):
    w = rng.choice(WORDS)
    r = rng.random()
    if r < 0.05:
        return rng.choice([None, 5, 7.5])
    return w.upper() if r < 0.3 else w.lower() if r < 0.6 else w.title() if r < 0.8 else w


def fold(k):
    return k.lower() if isinstance(k, str) else k


def mapping(m, rng):
    start = {key(rng): rng.randint(0, 99) for _ in range(rng.randint(0, 4))}
    k = rng.randrange(3)
    real = CaseInsensitiveMapping(start) if k == 0 else CaseInsensitiveMapping(list(start.items())) if k == 1 else \
        CaseInsensitiveMapping()
    model = []          # [key as first written, value]

    def find(k):
        for e in model:
            if fold(e[0]) == fold(k):
                return e
        return None

    def put(k, v):
        e = find(k)
        if e is None:
            model.append([k, v])
        else:
            e[1] = v

    if k < 2:
        for x, v in start.items():
            put(x, v)
    log = [('start', k, start)]
    for step in range(rng.randint(5, 25)):
        op = rng.choice(['set', 'set', 'get', 'del', 'pop', 'default', 'update', 'in', 'popitem', 'clear'])
        k, v = key(rng), rng.randint(0, 99)
        log.append((op, k, v))
        e = find(k)
        if op == 'set':
            real[k] = v
            put(k, v)
        elif op == 'get':
            if e is None:
                m.raises('map', KeyError, lambda: real[k], log)
            else:
                m.eq('map', real[k], e[1], log)
            m.eq('map', real.get(k, 'none'), 'none' if e is None else e[1], log)
        elif op == 'del':
            if e is None:
                def dele():
                    del real[k]
                m.raises('map', KeyError, dele, log)
            else:
                del real[k]
                model.remove(e)
        elif op == 'pop':
            m.eq('map', real.pop(k, 'none'), 'none' if e is None else e[1], log)
            if e is not None:
                model.remove(e)
        elif op == 'default':
            m.eq('map', real.setdefault(k, v), v if e is None else e[1], log)
            put(k, real.get(k))
        elif op == 'update':
            more = [(key(rng), rng.randint(0, 99)) for _ in range(3)]
            log.append(more)
            real.update(more)
            for x in more:
                put(*x)
        elif op == 'in':
            m.eq('map', k in real, e is not None, log)
        elif op == 'popitem' and model:
            got = real.popitem()
            e = find(got[0])
            m.check('map', e is not None and list(got) == e, lambda: (got, log))
            model.remove(e)
        elif op == 'clear' and rng.random() < 0.1:
            real.clear()
            model = []
        m.eq('map', (len(real), list(real), list(real.keys()), list(real.values()), list(real.items())),
             (len(model), [e[0] for e in model], [e[0] for e in model], [e[1] for e in model], [tuple(e) for e in model]), log)
        for e in model:
            for t in (e[0], e[0].upper(), e[0].lower()) if isinstance(e[0], str) else (e[0],):
                if fold(t) == fold(e[0]):
                    m.check('map', t in real and real[t] == e[1], lambda: (t, log))
    m.state('map', tuple(len(str(e[0])) for e in model))
    m.event('map', len(log))


def qname(m, rng):
    ns = rng.choice([None, None, '', 'http://www.w3.org/2000/svg', 'urn:x', NS['xlink'], NS['xml'], NS['xmlns']])
    nsmap = rng.choice([None, None, {'p': 'urn:x', 'q': 'urn:q', None: 'urn:d'}])
    table = NS if nsmap is None else nsmap
    form = rng.choice(['local', 'prefix', 'clark', 'bad'])
    local = rng.choice(['lang', 'href', 'a', 'x-y', 'svg', '\u00e9t\u00e9', 'a.b', '_'])
    want = None
    if form == 'local':
        q = local
        want = (ns or None, local)
    elif form == 'prefix':
        p = rng.choice(['xlink', 'xml', 'p', 'q', 'none', 'xmlns'])
        q = p + ':' + local
        if not ns or table.get(p) is None or table[p] != ns:
            want = NamespaceError
        else:
            want = (ns, local)
    elif form == 'clark':
        u = rng.choice(['urn:x', NS['xlink'], NS['xml'], 'urn:z'])
        q = '{%s}%s' % (u, local)
        want = NamespaceError if ns and ns != u else (u, local)
    else:
        q, want = rng.choice([('', ValueError), (':lang', ValueError), ('{}a', ValueError), ('{urn:x}', ValueError),
                              ('a b', InvalidCharacterError), ('a\n', InvalidCharacterError), (' a', InvalidCharacterError),
                              ('\ta', InvalidCharacterError), ('a\f', InvalidCharacterError)])
        if rng.random() < 0.2:
            ns, q, want = rng.choice([' ', 'urn: x', 'a\n']), 'lang', InvalidCharacterError
    ctx = (ns, q, nsmap)
    keep = None if nsmap is None else dict(nsmap)
    if isinstance(want, type):
        m.raises('qname', want, lambda: QualifiedName(ns, q, nsmap), ctx)
    else:
        r = QualifiedName(ns, q, nsmap)
        m.eq('qname', (r.namespace_uri, r.local_name, r.name),
             (want[0], want[1], '{%s}%s' % want if want[0] else want[1]), ctx)
        again = QualifiedName(None, r.name)
        m.eq('qname', (again.namespace_uri, again.local_name, again.name), (r.namespace_uri, r.local_name, r.name), ctx)
    m.eq('qname', nsmap, keep, ctx)
    m.state('qname', form, bool(ns), isinstance(want, type))


def content(m, rng):
    mime = rng.choice(['text/css', 'image/svg+xml', 'text/plain', ''])
    params = {}
    for _ in range(rng.randint(0, 3)):
        params.setdefault(rng.choice(['charset', 'boundary', 'q', 'Charset']).lower(), rng.choice(['utf-8', 'x', '0.5', 'US-ASCII']))
    text = mime
    for k, v in params.items():
        text += rng.choice([';', '; ', ' ; ']) + rng.choice([k, k.upper()]) + '=' + v
    if rng.random() < 0.2:
        text += ';junk'
    h = {rng.choice(['Content-Type', 'content-type', 'CONTENT-TYPE']): text, 'Other': 'x'}
    keep = dict(h)
    got = get_content_type(h)
    m.eq('content-type', got[None], mime, text)
    m.eq('content-type', {k.lower(): v for k, v in got.items() if k is not None}, params, text)
    m.eq('content-type', {k: got[k.title()] for k in params}, params, text)
    m.eq('content-type', h, keep, text)
    m.eq('content-type', get_content_type({'Other': text}), None, text)
    # data: URLs
    data = bytes(rng.randrange(256) for _ in range(rng.randint(0, 40)))
    if rng.random() < 0.5:
        enc = base64.b64encode(data).decode()
        url = 'data:%s;base64,%s' % (text, enc)
        want = data
    else:
        s = ''.join(rng.choice('abc ,;=#?%&{}:/\u00e9\u3042"<>\n') for _ in range(rng.randint(0, 20))).strip()
        url = 'data:%s,%s' % (text, quote(s, safe="a-z,;=:/{}"))
        want = s
    if mime:
        got, headers = load(rng.choice([url, URL(url)]))
        m.eq('data', got, want, url)
        again = get_content_type(headers)
        m.eq('data', again[None], mime, url)
        m.eq('data', {k.lower(): v for k, v in again.items() if k is not None}, params, url)


def style(m, rng):
    d = {}
    for _ in range(rng.randint(0, 5)):
        d[rng.choice(['fill', 'stroke', 'font-size', '--x', 'content', 'mask', 'clip-path', 'font-family'])] = rng.choice(
            ['red', '1px', 'url(#a)', 'url("data:a;b,c")', '"a;b:c"', "'!'", '"a b", serif', 'rgb(1,2,3)', 'var(--a, {x:y;z:w})',
             '1px !important', 'url(http://a/b?c:d)'])
    t = dict_to_style(d)
    m.eq('style', dict(style_to_dict(t)), d, t)
    m.eq('style', dict_to_style(style_to_dict(t)), t, d)
    loose = ''
    for k, v in d.items():
        loose += rng.choice(['', ' ', '\n', '/* a;b:c */']) + (k.upper() if not k.startswith('--') and rng.random() < 0.3 else k) \
            + rng.choice([':', ': ', ' :']) + v + rng.choice([';', ' ;', ';;', '; junk;', ';:x;', ';empty:;'])
    if rng.random() < 0.5:
        loose = loose.rstrip('; \n')
        if loose.endswith(('junk', ':x', 'empty:')):
            loose += ';'
    m.eq('style', dict(style_to_dict(loose)), d, loose)


def case(m, rng, i):
    mapping(m, rng)
    for _ in range(4):
        qname(m, rng)
    content(m, rng)
    style(m, rng)


if __name__ == '__main__':
    vf.main(vf.Spec(
        'M01', case, quick=8000, thorough=400000,
        rule='operation histories on maps with keys in mixed case; names in every form with matching and clashing namespaces; '
             'content types; data: URLs; style texts',
        required=['map', 'qname', 'content-type', 'data', 'style'],
        anchors=['svgpy/utils.py'],
        assumptions=[]))
