"""A brute-force selector matcher and a generator of selectors (as syntax trees and as text)."""

SVG = 'http://www.w3.org/2000/svg'
ANY = '*'


def tag(e):
    return e.tag if isinstance(e.tag, str) else None


def split(t):
    if t.startswith('{'):
        ns, name = t[1:].split('}')
        return ns, name
    return None, t


def kids(p):
    return [c for c in p if tag(c) is not None]


def parent(e, root):
    return None if e is root else e.getparent()


def sibs(e, root):
    p = parent(e, root)
    return [e] if p is None else kids(p)


def words(s):
    for ch in '\t\n\r\x0c':
        s = s.replace(ch, ' ')
    return [x for x in s.split(' ') if x]


def simple(s, e, root):
    kind = s[0]
    if kind == 'type':
        ns, name = split(tag(e))
        return (s[2] is None or s[2] == ns) and (s[1] == ANY or s[1] == name)
    if kind == 'id':
        return e.get('id') == s[1]
    if kind == 'class':
        return s[1] in words(e.get('class') or '')
    if kind == 'attr':
        v = e.get(s[1])
        op, w = s[2], s[3]
        if v is None:
            return False
        if op == '':
            return True
        if op == '=':
            return v == w
        if op == '~=':
            return w in words(v)
        if op == '|=':
            return v == w or v.startswith(w + '-')
        if op == '^=':
            return v.startswith(w)
        if op == '$=':
            return v.endswith(w)
        if op == '*=':
            return w in v
    if kind == 'pseudo':
        ss = sibs(e, root)
        i = [x is e for x in ss].index(True)
        n = len(ss)
        p = s[1]
        if p == 'root':
            return e is root
        if p == 'first-child':
            return i == 0
        if p == 'last-child':
            return i == n - 1
        if p == 'only-child':
            return n == 1 and e is not root
        if p == 'empty':
            return not kids(e) and not ''.join(e.xpath('./text()'))
    if kind == 'nth':
        ss = sibs(e, root)
        i = [x is e for x in ss].index(True)
        pos = i + 1 if s[1] == 'nth-child' else len(ss) - i
        a, b = s[2], s[3]
        if a == 0:
            return pos == b
        return (pos - b) % a == 0 and (pos - b) // a >= 0
    if kind == 'not':
        return not compound(s[1], e, root)
    raise AssertionError(s)


def compound(c, e, root):
    return all(simple(s, e, root) for s in c)


def complex_(sel, e, root):
    """sel = [compound, comb, compound, ...]; matched right to left"""
    if not compound(sel[-1], e, root):
        return False
    if len(sel) == 1:
        return True
    comb, rest = sel[-2], sel[:-2]
    if comb == ' ':
        p = parent(e, root)
        while p is not None:
            if complex_(rest, p, root):
                return True
            p = parent(p, root)
        return False
    if comb == '>':
        p = parent(e, root)
        return p is not None and complex_(rest, p, root)
    ss = sibs(e, root)
    i = [x is e for x in ss].index(True)
    if comb == '+':
        return i > 0 and complex_(rest, ss[i - 1], root)
    return any(complex_(rest, x, root) for x in ss[:i])


def spec(s):
    kind = s[0]
    if kind == 'type':
        return (0, 0, 0 if s[1] == ANY else 1)
    if kind == 'id':
        return (1, 0, 0)
    if kind == 'not':
        return specificity([s[1]])
    return (0, 1, 0)


def specificity(sel):
    t = [0, 0, 0]
    for c in sel:
        if isinstance(c, str):
            continue
        for s in c:
            for k, v in enumerate(spec(s)):
                t[k] += v
    return tuple(t)


def text_simple(s, rng, prefixes=None):
    kind = s[0]
    if kind == 'type':
        if prefixes and s[2]:
            return rng.choice(prefixes[s[2]]) + '|' + s[1]
        return ('svg|' if s[2] == SVG else 'p|' if s[2] else '') + s[1]
    if kind == 'id':
        return '#' + s[1]
    if kind == 'class':
        return '.' + s[1]
    if kind == 'attr':
        if s[2] == '':
            return '[%s]' % s[1]
        return rng.choice(['[%s%s"%s"]', "[%s%s'%s']", '[ %s %s "%s" ]']) % (s[1], s[2], s[3])
    if kind == 'pseudo':
        return ':' + s[1]
    if kind == 'nth':
        a, b = s[2], s[3]
        if (a, b) == (2, 0) and rng.random() < 0.5:
            arg = 'even'
        elif (a, b) == (2, 1) and rng.random() < 0.5:
            arg = 'odd'
        elif a == 0:
            arg = str(b)
        else:
            arg = ('' if a == 1 else '-' if a == -1 else str(a)) + 'n' + ('' if not b else '%+d' % b)
        return ':%s(%s)' % (s[1], arg)
    return ':not(%s)' % ''.join(text_simple(x, rng, prefixes) for x in s[1])


def text_of(sel, rng, prefixes=None):
    out = ''
    for c in sel:
        if isinstance(c, str):
            out += ' ' if c == ' ' else rng.choice(['%s', ' %s ', ' %s', '%s ']) % c
        else:
            out += ''.join(text_simple(s, rng, prefixes) for s in c)
    return out


class Gen(object):
    """Selectors over the given tags, ids, classes and attribute values."""

    def __init__(self, tags, ids, classes, attrs, namespaces=(None, None, SVG), combinators=' >+~'):
        self.tags, self.ids, self.classes, self.attrs = tags, ids, classes, attrs
        self.namespaces, self.combinators = namespaces, combinators

    def one(self, rng, neg=True):
        k = rng.choice(['id', 'class', 'class', 'attr', 'pseudo', 'nth', 'not'])
        if k == 'not' and not neg:
            k = 'class'
        if k == 'id':
            return ('id', rng.choice(self.ids))
        if k == 'class':
            return ('class', rng.choice(self.classes))
        if k == 'attr':
            name = rng.choice(sorted(self.attrs))
            op = rng.choice(['', '=', '~=', '|=', '^=', '$=', '*='])
            w = rng.choice(self.attrs[name])
            if op in ('^=', '$=', '*=') and len(w) > 1 and rng.random() < 0.5:
                w = w[:1] if op == '^=' else w[-1:] if op == '$=' else w[1:]
            return ('attr', name, op, w)
        if k == 'pseudo':
            return ('pseudo', rng.choice(['root', 'first-child', 'last-child', 'only-child', 'empty']))
        if k == 'nth':
            return ('nth', rng.choice(['nth-child', 'nth-last-child']), rng.choice([0, 0, 1, 2, 2, 3, -1, -2]),
                    rng.choice([0, 1, 1, 2, 3]))
        t = self.type_(rng) if rng.random() < 0.5 else self.one(rng, False)
        return ('not', [t])

    def type_(self, rng):
        return ('type', rng.choice(self.tags + [ANY]), rng.choice(self.namespaces))

    def compound(self, rng):
        out = []
        if rng.random() < 0.6:
            out.append(self.type_(rng))
        for _ in range(rng.choice([0, 1, 1, 2]) if out else rng.choice([1, 1, 2])):
            out.append(self.one(rng))
        return out

    def selector(self, rng, longest=3):
        sel = [self.compound(rng)]
        for _ in range(rng.choice([0, 0, 1, 1, 2]) if longest > 1 else 0):
            sel += [rng.choice(self.combinators), self.compound(rng)]
        return sel
