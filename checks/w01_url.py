"""W01: URLs: components, fixed point of href, reference resolution, setters."""
import os
import re
import shutil
import tempfile
from urllib.parse import unquote_to_bytes

import vf
from svgpy.url import URL

DEFAULT = {'http': '80', 'https': '443', 'ws': '80', 'wss': '443', 'ftp': '21', 'gopher': '70'}
SCHEMES = ['http', 'https', 'ws', 'wss', 'ftp', 'gopher', 'foo', 'svn+ssh', 'x-y.z1']
HOSTS = ['h', 'example.org', 'a.b-c.example', '127.0.0.1', '10.0.0.255', '[::1]', '[2001:db8::7:0]', 'xn--bcher-kva.example',
         'localhost']
UNRESERVED = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~'
KEPT = UNRESERVED + '&/:;=@[]'


# ---- independent model of the escapes of a path -----------------------------------------------
def tokens(s):
    """Characters of a path or fragment; escapes of anything but unreserved characters stay apart."""
    out = []
    i = 0
    while i < len(s):
        e = re.match('%([0-9a-fA-F]{2})', s[i:])
        if e:
            o = int(e.group(1), 16)
            out.append(chr(o) if chr(o) in UNRESERVED else '%%%02X' % o)
            i += 3
        else:
            c = s[i]
            if c in KEPT:
                out.append(c)
            else:
                out.extend('%%%02X' % o for o in c.encode())
            i += 1
    return out


def canon(s):
    return ''.join(tokens(s))


def remove_dots(path):
    """RFC 3986 5.2.4 on an absolute path."""
    out = []
    segs = path.split('/')[1:]
    for k, seg in enumerate(segs):
        last = k == len(segs) - 1
        if seg == '..':
            if out:
                out.pop()
            if last:
                out.append('')
        elif seg == '.':
            if last:
                out.append('')
        else:
            out.append(seg)
    return '/' + '/'.join(out)


def canon_path(p):
    if not p.startswith('/'):
        p = '/' + p
    return remove_dots(canon(p))


def decode(s):
    return unquote_to_bytes(s.replace('+', ' ')).decode(errors='replace')


def pairs(q):
    d = {}
    for part in q.split('&'):
        if part:
            k, _, v = part.partition('=')
            d[decode(k)] = decode(v)
    return d


# ---- generators -------------------------------------------------------------------------------
def text(rng, alphabet, n):
    return ''.join(rng.choice(alphabet) for _ in range(rng.randint(1, n)))


def segment(rng):
    r = rng.random()
    if r < 0.5:
        return text(rng, 'abcXYZ019-._~', 5)
    if r < 0.6:
        return rng.choice(['a;b=1', 'x&y', 'a:b', '@me', 'b=c', 'p[1]', "it's", 'a!b', '(c)', 'd*', 'e,f', 'a+b', '$1'])
    if r < 0.75:
        return text(rng, ['%2F', '%2f', '%3F', '%23', '%25', '%41', '%7e', '%E2%82%AC', '%ff', '%c3', '%5C', '%20', 'a', 'B', '0'], 4)
    if r < 0.85:
        return text(rng, ['\u00e9', '\u20ac', 'a', '\U0001f600', ' ', '"', '<', '>', '^', '`', '{', '}', '|'], 3).strip() or 'z'
    return rng.choice(['a%', '100%', '%zz', '%4', 'x%%41', '...', '.a', '..b', 'a..', '%2541'])


def path(rng, dots=True):
    segs = []
    for _ in range(rng.randint(0, 4)):
        segs.append(rng.choice(['.', '..', '%2e', '%2E%2e', '.%2e']) if dots and rng.random() < 0.2 else segment(rng))
    p = '/' + '/'.join(segs)
    if segs and rng.random() < 0.3:
        p += '/'
    return p


def qpart(rng):
    return text(rng, ['a', 'b', 'Z', '0', '+', '%20', '%26', '%3D', '%25', '%2B', '%23', '%41', '\u00e9', '%C3%A9', '-', '.', '/', '?',
                      ':', '@', '!', '$', "'", '(', '*', ',', ';', '~', '"', '<', '`', '%2541', '%', '%zz', '&#x0025;'.replace('&', '%26')
                      .replace('#', '%23')], 4)


def query(rng):
    out = []
    for _ in range(rng.randint(1, 4)):
        r = rng.random()
        k = qpart(rng)
        if r < 0.15:
            out.append(k)
        elif r < 0.3:
            out.append(k + '=')
        elif r < 0.4:
            out.append(k + '=' + qpart(rng) + '=' + qpart(rng))
        elif r < 0.45:
            out.append('')
        else:
            out.append(k + '=' + qpart(rng))
    return '&'.join(out)


def fragment(rng):
    return text(rng, ['a', 'Z', '0', '#', '?', '/', '%20', '%2541', '%23', '\u00e9', '"', '<', '>', '`', '%', '%4', '%ff', '~', '!', '$',
                      '&', '=', '(1)', '[', ']', '{', '|', '\\'], 5)


def userinfo(rng):
    return text(rng, ['u', 'P', '1', '-', '%40', '%3A', '%2F', '%2541', '%C3%A9', '\u00e9', '!', '$', '+', '='], 4)


class Model:
    """The components a URL ought to have."""
    def __init__(self):
        self.protocol = self.username = self.password = self.hostname = self.port = ''
        self.path = '/'
        self.query = {}
        self.fragment = ''

    def host(self):
        p = self.port
        return self.hostname + (':' + p if p and DEFAULT.get(self.protocol) != p else '')

    def copy(self):
        m = Model()
        m.__dict__.update(self.__dict__)
        return m


def absolute(rng):
    """A written URL and its model."""
    d = Model()
    scheme = rng.choice(SCHEMES)
    d.protocol = scheme
    s = (scheme.upper() if rng.random() < 0.2 else scheme) + '://'
    if rng.random() < 0.25:
        d.username = userinfo(rng) if rng.random() < 0.85 else ''
        s += d.username
        if rng.random() < 0.5 or not d.username:
            d.password = userinfo(rng)
            s += ':' + d.password
        s += '@'
    d.hostname = rng.choice(HOSTS)
    s += d.hostname.upper() if rng.random() < 0.2 else d.hostname
    r = rng.random()
    if r < 0.3:
        d.port = str(rng.choice([0, 1, 21, 80, 443, 8000, 65535]))
        s += ':' + ('0' + d.port if rng.random() < 0.1 else d.port)
    elif r < 0.35:
        s += ':'
    if rng.random() < 0.85:
        d.path = path(rng)
        s += d.path
    if rng.random() < 0.5:
        q = query(rng)
        d.query = pairs(q)
        s += '?' + q
    elif rng.random() < 0.05:
        s += '?'
    if rng.random() < 0.4:
        d.fragment = fragment(rng)
        s += '#' + d.fragment
    return s, d


def snapshot(u):
    return (u.protocol, u.username, u.password, u.host, u.hostname, u.port, u.pathname, u.search, u.hash, u.href, u.origin,
            sorted(u.search_params.items()))


def compare(m, name, u, d, ctx):
    m.eq(name + '.protocol', u.protocol, d.protocol + ':', ctx)
    m.eq(name + '.username', unquote_to_bytes(u.username), unquote_to_bytes(d.username), ctx)
    m.eq(name + '.password', unquote_to_bytes(u.password), unquote_to_bytes(d.password), ctx)
    m.eq(name + '.hostname', u.hostname, d.hostname, ctx)
    m.eq(name + '.port', u.port, d.port, ctx)
    m.eq(name + '.host', u.host, d.host(), ctx)
    m.eq(name + '.pathname', canon(u.pathname), canon_path(d.path), ctx)
    m.check(name + '.escaped', re.fullmatch("[A-Za-z0-9._~!$&'()*+,;=:@/\\[\\]%-]*", u.pathname) is not None, (ctx, u.pathname))
    m.check(name + '.search', (u.search == '') == (not d.query) and u.search[:1] in ('', '?'), (ctx, u.search))
    m.eq(name + '.search', pairs(u.search[1:]), d.query, ctx)
    m.check(name + '.escaped', re.search('[ #"<>\\x00-\\x20\\x7f-\\U0010ffff]', u.search) is None, (ctx, u.search))
    m.check(name + '.hash', (u.hash == '') == (not d.fragment) and u.hash[:1] in ('', '#'), (ctx, u.hash))
    m.eq(name + '.hash', unquote_to_bytes(u.hash[1:]), unquote_to_bytes(d.fragment), ctx)
    m.check(name + '.escaped', re.search('[ "<>`\\x00-\\x20\\x7f-\\U0010ffff]', u.hash) is None, (ctx, u.hash))
    origin = '%s://%s' % (d.protocol, d.host()) if d.protocol in DEFAULT and d.hostname else 'null'
    m.eq(name + '.origin', u.origin, origin, ctx)
    # the text of the URL holds its components and reads back as the same URL
    cred = u.username + (':' + u.password if u.password else '')
    want = u.protocol + '//' + (cred + '@' if cred else '') + u.host + u.pathname + u.search + u.hash
    m.eq(name + '.href', u.href, want, ctx)
    m.eq(name + '.href', u.tostring(), want, ctx)
    m.eq(name + '.href', u.tostring(exclude_fragment=True), want[:len(want) - len(u.hash)], ctx)
    if d.hostname:
        v = URL(u.href)
        m.eq(name + '.fixed-point', v.href, u.href, ctx)
        a, b = snapshot(u), snapshot(v)
        if u.port and not u.host.endswith(':' + u.port):
            a, b = a[:5] + a[6:], b[:5] + b[6:]            # the scheme's default port is not written
        m.eq(name + '.fixed-point', b, a, ctx)


BAD_URLS = ['', 'foo', 'a/b', '?q', '#f', '/x', 'http://h:99999/', 'http://h:x/', 'http://[::1', 'http://@/p', 'http://:80/p', 'http://a b/',
            'http://a%41/', '1http:', 'about:', 'data:', 'blob:', 'http://a..b/']


def reference(rng):
    """(text, kind) of a relative reference."""
    r = rng.random()
    p = q = f = None
    if r < 0.15:
        p = ''
    elif r < 0.35:
        p = path(rng)
    else:
        p = '/'.join(rng.choice(['.', '..', '..']) if rng.random() < 0.35 else segment(rng) for _ in range(rng.randint(1, 4)))
        if rng.random() < 0.25:
            p += '/'
        if re.match(r'[A-Za-z][A-Za-z0-9+.-]*:', p) or p.startswith(' '):
            p = './' + p
    p = p.replace('\\', '').replace('?', '').replace('#', '')
    if rng.random() < 0.4:
        q = query(rng) if rng.random() < 0.85 else ''
    if rng.random() < 0.4:
        f = fragment(rng) if rng.random() < 0.9 else ''
    return p, q, f


def resolve(m, rng):
    text_, d = absolute(rng)
    base = URL(text_)
    before = snapshot(base)
    use = base if rng.random() < 0.5 else text_
    k = rng.random()
    if k < 0.1:
        s, want = absolute(rng)
        got = URL(s, use)
        compare(m, 'resolve-absolute', got, want, (s, text_))
    elif k < 0.2:
        s, want = absolute(rng)
        want.protocol, s = d.protocol, s[s.index('//'):]
        got = URL(s, use)
        compare(m, 'resolve-network', got, want, (s, text_))
    elif k < 0.25:
        s = rng.choice(['http://h:99999/', 'http://[::1', 'http://@/p', 'http://a b/'])
        m.raises('resolve-invalid', ValueError, lambda: URL(s, use), (s, text_))
    else:
        p, q, f = reference(rng)
        s = p + ('' if q is None else '?' + q) + ('' if f is None else '#' + f)
        want = d.copy()
        bp = canon_path(d.path)
        if p == '':
            want.path = bp
            if q is not None:
                want.query = pairs(q)
        else:
            want.path = p if p.startswith('/') else bp[:bp.rindex('/') + 1] + p
            want.query = pairs(q) if q is not None else {}
        want.fragment = f or ''
        if want.port and DEFAULT.get(want.protocol) == want.port:
            want.port = ''
        got = URL(s, use)
        compare(m, 'resolve', got, want, (s, text_))
        m.state('ref', p[:1] == '/', p == '', q is None, f is None, '..' in p, p.endswith('/'))
    m.eq('base-unchanged', snapshot(base), before, (text_, s))


def setters(m, rng):
    s, d = absolute(rng)
    u = URL(s)
    params = u.search_params
    log = [('URL', s)]
    compare(m, 'init', u, d, log)
    look = vf.Glances(rng)
    steps = rng.randint(1, 10)
    for step in range(steps):
        op = rng.choice(['protocol', 'username', 'password', 'host', 'hostname', 'port', 'pathname', 'search', 'hash', 'href', 'bad'])
        if op == 'bad':
            name, v = rng.choice([
                ('protocol', '1x'), ('protocol', 'a b'), ('protocol', ':'), ('protocol', 'h/'), ('protocol', '\u00e9x'),
                ('host', 'a b'), ('host', 'h:99999'), ('host', 'h:8x'), ('host', 'a/b'), ('host', 'a#b:80'), ('host', '[::1'),
                ('host', 'a%41'), ('host', 'u@h'), ('host', 'a..b'), ('host', '[::1]:70000'), ('host', 'a?b'),
                ('hostname', 'a b'), ('hostname', 'h/x'), ('hostname', 'a#'), ('hostname', 'g:99999'), ('hostname', 'a..b'),
                ('port', '65536'), ('port', '-1'), ('port', '8x'), ('port', 'x'), ('port', ' 80'), ('port', '1.5'),
                ('href', rng.choice(BAD_URLS))] + ([('pathname', '/a\\b')] if d.protocol in DEFAULT else []))
            before = snapshot(u)
            log.append((name, v))
            m.raises('invalid-setter', ValueError, lambda: setattr(u, name, v), log)
            m.eq('failed-setter-keeps', snapshot(u), before, log)
            m.saw('bad:' + name)
            continue
        if op == 'protocol':
            v = rng.choice(SCHEMES)
            d.protocol = v
            v = rng.choice([v, v + ':', v.upper()])
        elif op in ('username', 'password'):
            v = userinfo(rng) if rng.random() < 0.8 else ''
            setattr(d, op, v)
        elif op == 'host':
            v = d.hostname = rng.choice(HOSTS)
            if rng.random() < 0.5:
                d.port = str(rng.choice([0, 80, 443, 21, 8080, 65535]))
                v += ':' + d.port
            else:
                d.port = ''
                if rng.random() < 0.2:
                    v += ':'
            v = v.upper() if rng.random() < 0.2 else v
        elif op == 'hostname':
            v = d.hostname = rng.choice(HOSTS)
            if v[0] == '[' and rng.random() < 0.3:
                v = v[1:-1]
        elif op == 'port':
            v = d.port = rng.choice(['', '0', '80', '443', '21', '8000', '65535'])
            if v and rng.random() < 0.15:
                v = '00' + v
        elif op == 'pathname':
            v = path(rng)
            if d.protocol in DEFAULT:
                v = v.replace('\\', '')
            if rng.random() < 0.3:
                v = v.replace('/', '/?', 1) if rng.random() < 0.5 else v + '#x'
            if rng.random() < 0.2:
                v = v[1:] or 'x'
            d.path = v
        elif op == 'search':
            v = query(rng) if rng.random() < 0.85 else ''
            d.query = pairs(v)
            if v and rng.random() < 0.4 or v.startswith('?'):
                v = '?' + v
        elif op == 'hash':
            v = fragment(rng) if rng.random() < 0.85 else ''
            d.fragment = v
            if v and rng.random() < 0.4 or v.startswith('#'):
                v = '#' + v
        else:
            v, d = absolute(rng)
        log.append((op, v))
        setattr(u, op, v)
        m.state(op, d.protocol, d.port in ('', DEFAULT.get(d.protocol)), d.port == '', d.hostname[0] == '[', not d.query)
        if not look(rng) and step < steps - 1:
            continue
        compare(m, 'set-' + op, u, d, log)
        m.check('params-object', u.search_params is params, log)
        m.eq('params-follow', dict(params), d.query, log)
        m.event('set', op)


def files(m, rng):
    """file: URLs: references are resolved against the folder."""
    top = m.tmp
    sub = rng.choice(['d', 'd e', 'd%2', 'd\u00e9'])
    folder = os.path.join(top, sub)
    os.makedirs(folder, exist_ok=True)
    with open(os.path.join(folder, 'f.svg'), 'w') as f:
        f.write('x')
    is_dir = rng.random() < 0.5
    from pathlib import Path
    at = Path(folder) if is_dir else Path(folder) / rng.choice(['f.svg', 'none.svg'])
    base = at.as_uri()
    u = URL(base)
    m.eq('file.origin', u.origin, 'null', base)
    m.eq('file.path', unquote_to_bytes(u.pathname), str(at).encode(), base)
    if sub != 'd' and is_dir:
        return      # whether an escaped name is a folder is decided on the escaped text: not claimed
    p, q, f_ = reference(rng)
    s = p + ('' if q is None else '?' + q) + ('' if f_ is None else '#' + f_)
    got = URL(s, base)
    bp = canon_path(u.pathname)
    if p.startswith('/'):
        want = p
    elif p == '':
        want = bp
    else:
        want = (bp + '/' if is_dir else bp[:bp.rindex('/') + 1]) + p
    m.eq('file.resolve', canon(got.pathname), canon_path(want), (s, base))
    m.eq('file.resolve', pairs(got.search[1:]), pairs(q) if q is not None else {}, (s, base))
    m.eq('file.resolve', unquote_to_bytes(got.hash[1:]), unquote_to_bytes(f_ or ''), (s, base))
    m.eq('file.href', URL(got.href).href, got.href, (s, base))


def opaque(m, rng):
    """about:, data: and blob: URLs keep their text."""
    scheme = rng.choice(['data', 'about', 'blob'])
    if scheme == 'data':
        body = rng.choice(['text/plain,', 'image/svg+xml;base64,', ',']) + text(rng, ['a', '%20', '%2F', '+', '/', '=', 'Z', '%2541'], 8)
    elif scheme == 'about':
        body = rng.choice(['blank', 'srcdoc', 'invalid'])
    else:
        s, d = absolute(rng)
        d.path = '/' + text(rng, 'abc0-', 8)
        body = '%s://%s%s' % (d.protocol, d.host(), d.path)
    src = scheme + ':' + body
    u = URL(src)
    m.eq('opaque.href', u.href, src)
    m.eq('opaque.pathname', u.pathname, body)
    m.eq('opaque.host', (u.host, u.hostname, u.port, u.username, u.search, u.hash), ('',) * 6, src)
    m.eq('opaque.origin', u.origin, '%s://%s' % (d.protocol, d.host()) if scheme == 'blob' and d.protocol in DEFAULT else 'null', src)
    m.raises('opaque-base', ValueError, lambda: URL(rng.choice(['x', '#f', '/a', '?q']), rng.choice([src, u])), src)
    s, d = absolute(rng)
    m.eq('opaque-base', URL(s, src).href, URL(s).href, (s, src))
    bad = rng.choice(BAD_URLS)
    m.raises('invalid', ValueError, lambda: URL(bad), bad)


def case(m, rng, i):
    k = i % 8
    if k < 3:
        resolve(m, rng)
    elif k < 6:
        setters(m, rng)
    elif k == 6:
        files(m, rng)
    else:
        opaque(m, rng)


def setup(m):
    m.tmp = tempfile.mkdtemp(prefix='w01')
    import atexit
    atexit.register(shutil.rmtree, m.tmp, True)


if __name__ == '__main__':
    vf.main(vf.Spec('W01', case, quick=12000, thorough=120000, setup=setup,
                    rule='cases alternate: reference against base, setter history, file: URL, opaque URL',
                    required=['resolve.pathname', 'resolve.search', 'resolve-network.host', 'base-unchanged', 'set-host.host', 'set-href.href',
                              'failed-setter-keeps', 'file.resolve', 'opaque.href', 'init.fixed-point', 'set-protocol.port'],
                    anchors=['svgpy/url.py'],
                    assumptions=['no empty path segments', 'hosts are ASCII and not empty', 'one value per search parameter name']))
