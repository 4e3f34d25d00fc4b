"""W02: URLSearchParams: a mapping, its text form, and the URL's query it stands for."""
import re

import vf
from svgpy.url import URL, URLSearchParams

PARTS = ['a', 'b', 'k', 'Z', '0', '9', ' ', '+', '&', '=', '#', '?', '%', '%41', '%zz', '%2541', '%25', '/', ';', ':', '"', "'", '<', '>', '`', '~',
         '\u00e9', '\u20ac', '\U0001f600', '\u0301', '\n', '\t', '\x7f', '*', '-', '.', '_', '!', '(', ')', '[', ']', '\\', '|', '{', '}',
         '&#x0025;', '&#0037;', '&#x00e9;', '&amp;', '&#', ';']


def word(rng, n=5):
    return ''.join(rng.choice(PARTS) for _ in range(rng.randint(0, n)))


def key(rng):
    return rng.choice(['key', 'q', 'a', 'b', '']) if rng.random() < 0.5 else word(rng)


def decode(s):
    """application/x-www-form-urlencoded, by hand."""
    out = b''
    i = 0
    while i < len(s):
        c = s[i]
        if c == '+':
            out += b' '
        elif c == '%' and re.match('[0-9A-Fa-f]{2}', s[i + 1:i + 3]) and len(s[i + 1:i + 3]) == 2:
            out += bytes([int(s[i + 1:i + 3], 16)])
            i += 2
        else:
            out += c.encode()
        i += 1
    return out.decode()


def parse(q):
    out = []
    for part in q.split('&'):
        if part:
            k, _, v = part.partition('=')
            out.append((decode(k), decode(v)))
    return out


def encode(rng, s):
    """One of the many spellings of a text in a query."""
    out = ''
    for c in s:
        must = c in '&#+%=\n\t\x7f' or ord(c) > 0x7e and rng.random() < 0.7
        if c == ' ' and rng.random() < 0.6:
            out += '+'
        elif must or c != ' ' and rng.random() < 0.15 or c == ' ':
            out += ''.join(('%%%02X' if rng.random() < 0.7 else '%%%02x') % o for o in c.encode())
        else:
            out += c
    return out


def same(m, name, p, model, ctx):
    m.eq(name + '.items', dict(p), model, ctx)
    m.eq(name + '.items', dict(p.items()), model, ctx)
    m.eq(name + '.len', (len(p), bool(p)), (len(model), bool(model)), ctx)
    text = p.tostring()
    got = parse(text)
    m.eq(name + '.text', dict(got), model, (ctx, text))
    m.eq(name + '.text-once', len(got), len(model), (ctx, text))
    m.check(name + '.text-safe', re.fullmatch(r'[A-Za-z0-9*\-._~+%&=]*', text) is not None, (ctx, text))


def bound(m, name, u, model, ctx):
    """The query of a URL says what its parameters say."""
    s = u.search
    m.check(name + '.search', s == '' if not model else s[:1] == '?', (ctx, s))
    got = parse(s[1:])
    m.eq(name + '.search', dict(got), model, (ctx, s))
    m.eq(name + '.search-once', len(got), len(model), (ctx, s))
    m.check(name + '.search-safe', re.search('[ #\'"<>\\x00-\\x20\\x7f-\\U0010ffff]', s) is None or "'" in s and
            re.search('[ #"<>\\x00-\\x20\\x7f-\\U0010ffff]', s) is None, (ctx, s))
    m.eq(name + '.href', u.href, u.protocol + '//' + u.host + u.pathname + s + u.hash, ctx)
    v = URL(u.href)
    m.eq(name + '.reparsed', dict(v.search_params), model, (ctx, u.href))
    m.eq(name + '.reparsed', v.href, u.href, ctx)


def case(m, rng, i):
    model = {}
    log = []
    attached = i % 2 == 0
    if attached:
        u = URL('http://example.org/p#f')
        p = u.search_params
    else:
        model = {key(rng): word(rng) for _ in range(rng.randint(0, 4))}
        k = rng.randrange(3)
        p = URLSearchParams(model) if k == 0 else URLSearchParams(list(model.items())) if k == 1 else URLSearchParams()
        if k == 2:
            model = {}
        log.append(('init', dict(model)))
        start = model
        model = dict(model)
    look = vf.Glances(rng)
    for _ in range(rng.randint(2, 14)):
        op = rng.choice(['set', 'set', 'set', 'get', 'del', 'pop', 'in', 'default', 'update', 'clear', 'popitem', 'parse', 'parse', 'href'])
        k, v = key(rng), word(rng)
        log.append((op, k, v))
        if op == 'set':
            p[k] = v
            model[k] = v
        elif op == 'get':
            m.eq('get', p.get(k), model.get(k), log)
            if k in model:
                m.eq('get', p[k], model[k], log)
            else:
                m.raises('get', KeyError, lambda: p[k], log)
        elif op == 'del':
            if k in model:
                del p[k]
                del model[k]
            else:
                m.raises('del', KeyError, lambda: p.__delitem__(k), log)
        elif op == 'pop':
            m.eq('pop', p.pop(k, None), model.pop(k, None), log)
        elif op == 'in':
            m.eq('in', k in p, k in model, log)
        elif op == 'default':
            m.eq('default', p.setdefault(k, v), model.setdefault(k, v), log)
        elif op == 'update':
            d = {key(rng): word(rng) for _ in range(rng.randint(0, 3))}
            log.append(d)
            p.update(d)
            model.update(d)
        elif op == 'clear':
            if rng.random() < 0.3:
                p.clear()
                model.clear()
        elif op == 'popitem':
            if model:
                kk, vv = p.popitem()
                m.eq('popitem', model.pop(kk, None), vv, log)
            else:
                m.raises('popitem', KeyError, p.popitem, log)
        elif attached:
            d = {key(rng): word(rng) for _ in range(rng.randint(0, 5))}
            parts = []
            for a, b in d.items():
                a_, b_ = encode(rng, a), encode(rng, b)
                if b and rng.random() < 0.5:
                    b_ = b_.replace('%3D', '=')
                if a_ == '' and b_ == '':
                    b_ = ''
                parts.append(a_ if b == '' and a and rng.random() < 0.5 else a_ + '=' + b_)
                if rng.random() < 0.1:
                    parts.append('')
            q = '&'.join(parts)
            log.append((d, q))
            if op == 'parse':
                u.search = ('?' if rng.random() < 0.5 or q.startswith('?') else '') + q
            else:
                if re.search('[\n\t]', q):
                    q = q.replace('\n', '%0A').replace('\t', '%09')
                u.href = 'http://example.org/p?' + q + '#f'
            model = d
            m.check('same-object', u.search_params is p, log)
        if look(rng):
            same(m, op, p, model, log)
            if attached:
                bound(m, op, u, model, log)
        m.state(op, attached, min(len(model), 4), '' in model)
    same(m, 'end', p, model, log)
    if attached:
        bound(m, 'end', u, model, log)
    if not attached and log[0][1]:
        m.eq('source-unchanged', start, log[0][1], log)


if __name__ == '__main__':
    vf.main(vf.Spec('W02', case, quick=5000, thorough=150000,
                    rule='even cases: the parameters of a URL, odd cases: parameters on their own; 2 to 14 operations each',
                    required=['set.text', 'set.search', 'parse.items', 'parse.search', 'href.reparsed', 'del', 'popitem', 'update.href'],
                    anchors=['svgpy/url.py'],
                    assumptions=['each name has one value (the class is a mapping)', 'values are str']))
