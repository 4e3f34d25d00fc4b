"""Random SVG path data: segment lists [(type, v...)] and their spellings."""
from decimal import Decimal

from gen import num

ARGC = {'M': 2, 'L': 2, 'H': 1, 'V': 1, 'C': 6, 'S': 4, 'Q': 4, 'T': 2, 'A': 7, 'Z': 0, 'B': 1}


def coord(rng):
    r = rng.random()
    if r < 0.5:
        return rng.randint(-50, 50)
    if r < 0.6:
        return 0
    return round(rng.uniform(-50, 50), rng.choice([1, 2, 3]))


def arc_args(rng, degenerate=0.08):
    r = rng.random()
    rx = rng.choice([rng.randint(1, 60), round(rng.uniform(0.5, 60), 2)])
    ry = rx if rng.random() < 0.25 else rng.choice([rng.randint(1, 60), round(rng.uniform(0.5, 60), 2)])
    if r < degenerate / 2:
        if rng.random() < 0.5:
            rx = 0
        else:
            ry = 0
    elif r < degenerate:
        rx = -rx
    phi = rng.choice([0, 0, 30, 45, 90, -30, 120, 180, round(rng.uniform(-180, 180), 1)])
    return [rx, ry, phi, rng.randint(0, 1), rng.randint(0, 1)]


def random_path(rng, n=None, types='LHVCSQTAZM', bearing=0.0, degenerate=0.08):
    segs = [(rng.choice('Mm'), coord(rng), coord(rng))]
    n = rng.randint(1, 8) if n is None else n
    last = 'M'
    while len(segs) <= n:
        if bearing and rng.random() < bearing:
            segs.append((rng.choice('Bb'), rng.choice([30, 45, 90, -60, 180, 10.5])))
            continue
        t = rng.choice(types)
        if last in 'CSQT' and rng.random() < 0.4:
            t = rng.choice([x for x in types if x in 'CSQT'] or types)
        if segs[-1][0] in 'Bb' and t in 'MST':
            continue            # what a bearing does to "the previous command" is not specified
        if t == 'Z' and last in 'ZM':
            continue
        if t == 'M' and last == 'M':
            if rng.random() < 0.7:
                continue
        T = t
        if rng.random() < 0.5:
            t = t.lower()
        if T == 'Z':
            v = []
        elif T == 'A':
            v = arc_args(rng, degenerate) + [coord(rng), coord(rng)]
            if rng.random() < degenerate / 2 and t == 'a':
                v[5:] = [0, 0]
        else:
            v = [coord(rng) for _ in range(ARGC[T])]
        segs.append(tuple([t] + v))
        last = T
    while segs[-1][0] in 'MmBb' and len(segs) > 1:
        segs.pop()
    if len(segs) == 1:
        segs.append(('L', coord(rng), coord(rng)))
    return segs


def scaled(rng, segs):
    """The same path much smaller or larger (no arcs far below the tolerance of coincident points)."""
    arcs = any(s[0] in 'Aa' for s in segs)
    k = rng.choice([0.01, 100, 1000, 10000] if arcs else [0.00001, 0.0001, 0.001, 0.01, 100, 10000, 1000000])
    out = []
    for s in segs:
        v = list(s[1:])
        if s[0] not in 'Bb':
            idx = (0, 1, 5, 6) if s[0] in 'Aa' else range(len(v))
            for j in idx:
                v[j] = float('%.9g' % (v[j] * k))
        out.append((s[0],) + tuple(v))
    return out, k


def scientific(rng, x):
    """Another way to write x: a mantissa and an exponent."""
    d = Decimal(repr(x))
    sign, digits, exp = d.as_tuple()
    digits = ''.join(map(str, digits))
    k = rng.choice([0, 0, len(digits), rng.randint(0, len(digits))])
    man = digits[:k] + '.' + digits[k:] if k < len(digits) else digits + rng.choice(['', '.'])
    e = exp + len(digits) - k
    return ('-' if sign else rng.choice(['', '', '+'])) + man + rng.choice('eE') + ('%d' % e if e < 0 or rng.random() < 0.6 else '+%d' % e)


def spell_number(rng, x):
    if rng.random() < 0.06:
        return scientific(rng, x)
    if isinstance(x, int) or x == int(x):
        x = int(x)
        k = rng.random()
        if k < 0.05:
            return '%d.0' % x
        if k < 0.1 and x % 10 == 0 and x:
            return '%de%s1' % (x // 10, rng.choice(['', '+', '0']))
        if k < 0.13 and x >= 0:
            return '+%d' % x
        return str(x)
    s = repr(x)
    if 'e' in s:
        return s.replace('e', rng.choice('eE'))
    k = rng.random()
    if k < 0.4 and s.startswith('0.'):
        s = s[1:]
    elif k < 0.4 and s.startswith('-0.'):
        s = '-' + s[2:]
    elif k < 0.45:
        s += rng.choice(['e0', 'E+0', 'e-0'])
    elif k < 0.5 and x > 0:
        s = '+' + s
    return s


def spell(rng, segs, compact_flags=True):
    """A path string that denotes segs; elided command letters, minimal separators, any white space."""
    out = ''
    last = None
    for s in segs:
        t, v = s[0], s[1:]
        elide = t == last and t not in 'ZzBb' and rng.random() < 0.5
        if last in ('M', 'm') and t in ('M', 'm') and t == last:
            elide = True        # the only way to write an implicit lineto as this library stores it
        body = ''
        prev = ''
        for k, x in enumerate(v):
            flag = t in 'Aa' and k in (3, 4)
            w = str(int(x)) if flag else spell_number(rng, x)
            need = bool(prev) or (k == 0 and elide)
            sep = ''
            if need:
                prev_flag = t in 'Aa' and k in (4, 5) and compact_flags
                can_join = w[0] in '+-' or (w[0] == '.' and ('.' in prev or 'e' in prev.lower())) or prev_flag
                if can_join and rng.random() < 0.5:
                    sep = ''
                else:
                    sep = rng.choice([' ', ',', ', ', ' , ', '  ', '\n'])
            body += sep + w
            prev = w
        if elide:
            # the first separator was added above with no previous number of this segment
            if not (body[0] in ' ,\n' or body[0] in '+-'):
                body = ' ' + body
            out += body
        else:
            out += rng.choice(['', ' ', '']) + t + rng.choice(['', ' ', '']) + body
        last = t
    return rng.choice(['', ' ', '\n']) + out.strip() + rng.choice(['', ' '])
