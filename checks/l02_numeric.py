"""L02: CSS Typed OM numeric values: parsing, arithmetic, conversion, comparison and text."""
import math
import re

import vf
from svgpy.css import CSS
from svgpy.css.types import (CSSMathClamp, CSSMathInvert, CSSMathMax, CSSMathMin, CSSMathNegate, CSSMathProduct, CSSMathSum, CSSNumericValue,
                             CSSUnitValue)

RATIO = {'px': 1, 'cm': 96 / 2.54, 'mm': 9.6 / 2.54, 'q': 2.4 / 2.54, 'in': 96, 'pt': 96 / 72, 'pc': 16, 'deg': 1, 'grad': 0.9, 'rad': 180 / math.pi,
         'turn': 360, 'ms': 1, 's': 1000, 'hz': 1, 'khz': 1000, 'dppx': 1, 'dpi': 1 / 96, 'dpcm': 2.54 / 96}
RELATIVE = ['em', 'ex', 'ch', 'ic', 'rem', 'lh', 'rlh', 'vw', 'vh', 'vi', 'vb', 'vmin', 'vmax']
CANON = {}
BASE = {}
for group, canon, base in ((['px', 'cm', 'mm', 'q', 'in', 'pt', 'pc'], 'px', 'length'), (['deg', 'grad', 'rad', 'turn'], 'deg', 'angle'),
                           (['ms', 's'], 'ms', 'time'), (['hz', 'khz'], 'hz', 'frequency'), (['dppx', 'dpi', 'dpcm'], 'dppx', 'resolution')):
    for u in group:
        CANON[u] = canon
        BASE[u] = base
for u in RELATIVE:
    CANON[u] = u
    BASE[u] = 'length'
CANON['percent'] = BASE['percent'] = 'percent'
CANON['fr'], BASE['fr'] = 'fr', 'flex'
UNITS = {}
for u, b in BASE.items():
    UNITS.setdefault(b, []).append(u)
ALL = list(CANON) + ['number']
NUMBERS = [0, 1, 2, 3, -1, -2.5, 0.5, 10, 100, 7.25, -4]


# --- the reference: an expression is a tree, its value a polynomial {((unit, power), ...): value} ---------------------------------
def leaf(v, unit):
    if unit == 'number':
        return {(): v}
    return {((CANON[unit], 1),): v * RATIO.get(unit, 1)}


def times(a, b):
    out = {}
    for x, v in a.items():
        for y, w in b.items():
            d = dict(x)
            for u, p in y:
                d[u] = d.get(u, 0) + p
            k = tuple(sorted((u, p) for u, p in d.items() if p))
            out[k] = out.get(k, 0) + v * w
    return out


def value(t):
    """The polynomial of the tree; None if it has none (clamp, the reciprocal of a sum, ...)."""
    op = t[0]
    if op == 'u':
        return leaf(t[1], t[2])
    if op == 'clamp':
        return None
    vs = [value(x) for x in t[1]]
    if any(v is None for v in vs):
        return None
    if op == 'sum':
        out = {}
        for v in vs:
            for k, x in v.items():
                out[k] = out.get(k, 0) + x
        return out
    if op == 'prod':
        out = {(): 1}
        for v in vs:
            out = times(out, v)
        return out
    if op == 'neg':
        return {k: -v for k, v in vs[0].items()}
    if op == 'inv':
        if len(vs[0]) != 1:
            return None
        (k, v), = vs[0].items()
        if abs(v) < 1e-9:
            raise ZeroDivisionError
        return {tuple((u, -p) for u, p in k): 1 / v}
    if any(len(v) != 1 for v in vs) or len({k for v in vs for k in v}) != 1:
        return None
    k = list(vs[0])[0]
    return {k: (max if op == 'max' else min)(v[k] for v in vs)}


class Mismatch(Exception):
    pass


def dims(t, hint='percent'):
    """The type of the tree, {base: power}, percentages counting as the kind hint; Mismatch if it has none."""
    op = t[0]
    if op == 'u':
        base = BASE[t[2]] if t[2] != 'number' else None
        return {hint if base == 'percent' else base: 1} if base else {}
    parts = [dims(x, hint) for x in (t[1:] if op == 'clamp' else t[1])]
    if op == 'prod':
        out = {}
        for d in parts:
            for k, v in d.items():
                out[k] = out.get(k, 0) + v
        return {k: v for k, v in out.items() if v}
    if op == 'inv':
        return {k: -v for k, v in parts[0].items()}
    if any(d != parts[0] for d in parts[1:]):
        raise Mismatch()
    return parts[0]


def typed(t):
    """(type, hint): percentages count as themselves if that gives a type, else as the one kind that does."""
    for hint in ('percent', 'length', 'angle', 'time', 'frequency', 'resolution', 'flex'):
        try:
            return dims(t, hint), hint
        except Mismatch:
            pass
    raise Mismatch()


def undecided(t):
    """Whether some sum only mixes different powers of percentages (as 1 + 1%), which is accepted (pinned by tests): not claimed.

    The type of a subtree is [powers, hint]; None if it has none and False where it is undecided."""
    def add(a, b):
        if a[1] and b[1] and a[1] != b[1]:
            return None
        for hint in ([a[1] or b[1]] if a[1] or b[1] else [None, 'length', 'angle', 'time', 'frequency', 'resolution', 'flex']):
            x, y = hinted(a[0], hint), hinted(b[0], hint)
            if x == y:
                return [x, hint]
        return False if {k: v for k, v in a[0].items() if k != 'percent'} == {k: v for k, v in b[0].items() if k != 'percent'} else None

    def hinted(d, hint):
        d = dict(d)
        if hint and 'percent' in d:
            d[hint] = d.get(hint, 0) + d.pop('percent')
        return {k: v for k, v in d.items() if v}

    def walk(t):
        if t[0] == 'u':
            return [dims(t), None]
        parts = [walk(x) for x in (t[1:] if t[0] == 'clamp' else t[1])]
        if None in parts:
            return None
        if False in parts:
            return False
        if t[0] == 'inv':
            return [{k: -v for k, v in parts[0][0].items()}, parts[0][1]]
        out = parts[0]
        for p in parts[1:]:
            if t[0] != 'prod':
                out = add(out, p)
                if not out:
                    return out
            else:
                if out[1] and p[1] and out[1] != p[1]:
                    return None
                hint = out[1] or p[1]
                x, y = hinted(out[0], hint), hinted(p[0], hint)
                out = [{k: v for k, v in ((k, x.get(k, 0) + y.get(k, 0)) for k in {**x, **y}) if v}, hint]
        return out
    return walk(t) is False


# --- generation --------------------------------------------------------------------------------------------------------------
def gen(rng, base, depth):
    r = rng.random()
    if depth <= 0 or r < 0.25:
        unit = 'number' if base is None else rng.choice(UNITS[base])
        if rng.random() < (0.1 if base in ('length', 'angle', 'time') else 0.01):
            unit = 'percent'
        return ('u', rng.choice(NUMBERS), unit)
    if r < 0.5:
        return ('sum', [gen(rng, base if rng.random() < 0.98 else rng.choice([None, 'length', 'time']), depth - 1) for _ in range(rng.choice([1, 2, 2, 3]))])
    if r < 0.7:
        parts = [gen(rng, base, depth - 1)]
        for _ in range(rng.choice([0, 1, 1, 2])):
            x = rng.random()
            if x < 0.5:
                parts.append(gen(rng, None, depth - 1))
            elif x < 0.8:
                parts.append(('inv', [gen(rng, None, depth - 1)]))
            elif x < 0.95:
                b = rng.choice(['length', 'time', 'percent'])
                parts += [gen(rng, b, depth - 1), ('inv', [gen(rng, b, depth - 1)])]
            else:
                parts.append(gen(rng, rng.choice(['length', 'angle', 'percent']), depth - 1))
        if rng.random() < 0.4:
            rng.shuffle(parts)
        return ('prod', parts)
    if r < 0.8:
        return ('neg', [gen(rng, base, depth - 1)])
    if r < 0.97:
        return (rng.choice(['max', 'min']), [gen(rng, base, depth - 1) for _ in range(rng.choice([1, 2, 2, 3]))])
    return ('clamp',) + tuple(gen(rng, base, depth - 1) for _ in range(3))


def build(t, leaves):
    op = t[0]
    if op == 'u':
        r = CSSUnitValue(t[1], t[2])
        leaves.append((r, t))
        return r
    args = [build(x, leaves) for x in (t[1:] if op == 'clamp' else t[1])]
    return {'sum': CSSMathSum, 'prod': CSSMathProduct, 'neg': CSSMathNegate, 'inv': CSSMathInvert, 'max': CSSMathMax, 'min': CSSMathMin,
            'clamp': CSSMathClamp}[op](*args)


def num(v):
    return ('%.4f' % v).rstrip('0').rstrip('.')


class Writer:
    def __init__(self, rng):
        self.rng = rng

    def ws(self):
        return self.rng.choice(['', ' ', ' ', '\n', '  ', '/**/'])

    def sp(self):
        return self.rng.choice([' ', ' ', '\n', '  ', ' /* + */ '])

    def unit(self, t):
        if t[2] == 'number':
            return num(t[1])
        return num(t[1]) + ('%' if t[2] == 'percent' else self.rng.choice([t[2], t[2], t[2].upper(), t[2].title()]))

    def name(self, n):
        return self.rng.choice([n, n, n.upper()])

    def atom(self, t):
        if t[0] == 'u':
            return self.unit(t)
        if t[0] in ('max', 'min', 'clamp'):
            args = t[1:] if t[0] == 'clamp' else t[1]
            return self.name(t[0]) + '(' + (self.ws() + ',' + self.ws()).join(self.sum(x) for x in args) + ')'
        return self.rng.choice(['(', '(', self.name('calc') + '(']) + self.ws() + self.sum(t) + self.ws() + ')'

    def product(self, t):
        if t[0] != 'prod':
            return self.atom(t)
        if t[1][0][0] == 'inv':
            out = '1' + self.ws() + '/' + self.ws() + self.atom(t[1][0][1][0])
        else:
            out = self.atom(t[1][0])
        for x in t[1][1:]:
            out += self.ws() + ('/' + self.ws() + self.atom(x[1][0]) if x[0] == 'inv' else '*' + self.ws() + self.atom(x))
        return out

    def sum(self, t):
        if t[0] == 'neg':
            return '0 - ' + self.product(t[1][0]) if False else '-1' + self.ws() + '*' + self.ws() + self.atom(t[1][0])
        if t[0] == 'inv':
            return '1' + self.ws() + '/' + self.ws() + self.atom(t[1][0])
        if t[0] != 'sum':
            return self.product(t)
        first = t[1][0]
        out = self.sum(first) if first[0] in ('neg', 'inv') else self.product(first)
        for x in t[1][1:]:
            if x[0] == 'neg':
                out += self.sp() + '-' + self.sp() + self.product(x[1][0])
            else:
                out += self.sp() + '+' + self.sp() + (self.sum(x) if x[0] == 'inv' else self.product(x))
        return out

    def top(self, t):
        if t[0] in ('u', 'max', 'min', 'clamp'):
            return self.atom(t)
        return self.name('calc') + '(' + self.ws() + self.sum(t) + self.ws() + ')'


# --- an independent reader of the texts that come out --------------------------------------------------------------------------
TOKEN = re.compile(r'\s*(?:([+-]?(?:\d+\.?\d*|\.\d+)(?:e[+-]?\d+)?)(%|[a-z]+)?|([a-z]+)\(|([()+*/,-]))')


class Reader:
    def __init__(self, text):
        self.toks = []
        pos = 0
        text = re.sub(r'/\*.*?\*/', '', text.strip().lower())
        while pos < len(text):
            mt = TOKEN.match(text, pos)
            if not mt:
                raise ValueError(text[pos:])
            spaced = pos < mt.start() or text[pos:mt.end()][:1].isspace()
            after = text[mt.end():mt.end() + 1].isspace()
            if mt.group(1):
                # 1px -2px has no operator; a sign directly after an operand is part of a number
                self.toks.append(('u', float(mt.group(1)), {'%': 'percent', None: 'number'}.get(mt.group(2), mt.group(2))))
            elif mt.group(3):
                self.toks.append(('f', mt.group(3)))
            else:
                self.toks.append((mt.group(4), spaced and after))
            pos = mt.end()
        self.i = 0

    def peek(self):
        return self.toks[self.i] if self.i < len(self.toks) else ('end',)

    def next(self):
        self.i += 1
        return self.toks[self.i - 1]

    def expect(self, c):
        if self.next()[0] != c:
            raise ValueError(c)

    def top(self):
        t = self.atom()
        if self.peek()[0] != 'end':
            raise ValueError('rest')
        return t

    def atom(self):
        t = self.next()
        if t[0] == 'u':
            if t[2] != 'number' and t[2] not in CANON:
                raise ValueError(t[2])
            return t
        if t[0] == '(':
            x = self.sum()
            self.expect(')')
            return x
        if t[0] == '-':
            return ('neg', [self.atom()])
        if t[0] == 'f':
            args = [self.sum()]
            while self.peek()[0] == ',':
                self.next()
                args.append(self.sum())
            self.expect(')')
            if t[1] == 'calc' and len(args) == 1:
                return args[0]
            if t[1] in ('max', 'min'):
                return (t[1], args)
            if t[1] == 'clamp' and len(args) == 3:
                return ('clamp',) + tuple(args)
        raise ValueError(t)

    def product(self):
        out = [self.atom()]
        while self.peek()[0] in ('*', '/'):
            out.append(self.atom() if self.next()[0] == '*' else ('inv', [self.atom()]))
        return out[0] if len(out) == 1 else ('prod', out)

    def sum(self):
        out = [self.product()]
        while self.peek()[0] in ('+', '-'):
            op, spaced = self.next()
            if not spaced:
                raise ValueError('unspaced')
            x = self.product()
            out.append(x if op == '+' else ('neg', [x]))
        return out[0] if len(out) == 1 else ('sum', out)


# --- comparison -----------------------------------------------------------------------------------------------------------------
def clean(p):
    return p if p is None else dict(p)


def near(a, b, scale=1.0):
    return abs(a - b) <= 1e-6 * max(1e-3, abs(a), abs(b), scale)


def same(p, q, scale):
    if p is None or q is None:
        return p is q
    return set(p) == set(q) and all(near(p[k], q[k], scale) for k in p)


def size(t):
    """A bound of the magnitudes in the tree, for rounding."""
    if t[0] == 'u':
        return abs(t[1]) * RATIO.get(t[2], 1) + 1e-3
    vs = [size(x) for x in (t[1:] if t[0] == 'clamp' else t[1])]
    return math.prod(vs) if t[0] == 'prod' else sum(vs)


def observed(v):
    """The polynomial of a numeric value as to_sum() reports it; None when it reports none."""
    try:
        s = v.to_sum()
    except ValueError:
        return None
    out = {}
    for item in s.values:
        k = () if item.unit == 'number' else ((item.unit, 1),)
        if k in out:
            raise AssertionError('unit twice in a sum')
        out[k] = item.value
    return out


def linear(p):
    return p is not None and all(k == () or (len(k) == 1 and k[0][1] == 1) for k in p)


def check_value(m, tag, v, p, scale, rng, ctx):
    if p is not None and not all(abs(x) < 1e12 for x in p.values()):
        return
    want = p if linear(p) else None
    if want is not None and len({BASE.get(k[0][0]) if k else None for k in want}) > 1 and () in want and any(k and k[0][0] != 'percent' for k in want):
        want = None     # cannot happen in a well typed sum
    got = observed(v)
    m.check(tag + '.sum', same(got, want, scale), lambda: (got, want, ctx))
    m.saw('sum.none' if want is None else 'sum.value')
    for unit in rng.sample(ALL, 3) + ([k[0][0] if k else 'number' for k in list(want)[:1]] if want else []) + (['mm', 'px'] if want and ((('px', 1),) in want) else []):
        conv = None
        if want is not None and len(want) == 1:
            (k, x), = want.items()
            if k == () and unit == 'number':
                conv = x
            elif k and unit != 'number' and k[0][0] == CANON[unit]:
                conv = x / RATIO.get(unit, 1)
        spelled = rng.choice([unit, unit.upper()])
        if conv is None:
            m.raises(tag + '.to-error', ValueError, lambda: v.to(spelled), lambda: (unit, ctx))
        else:
            r = v.to(spelled)
            m.check(tag + '.to', r.unit == unit and near(r.value, conv, scale / RATIO.get(unit, 1)), lambda: (unit, r.value, r.unit, conv, ctx))
    if want:
        # conversion to chosen units: each term to the first unit of its kind
        units = []
        for k in want:
            u = k[0][0] if k else 'number'
            units.append(rng.choice([x for x in ALL if x != 'number' and CANON[x] == u]) if u != 'number' else u)
        extra = [u for u in RELATIVE if u not in units and all(CANON[u] != CANON.get(x) for x in units)]
        if rng.random() < 0.3 and () not in want and all(BASE[u] in ('length', 'percent') for u in units):
            units.append(rng.choice(extra))
        rng.shuffle(units)
        r = v.to_sum(*units)
        m.eq(tag + '.to-sum.units', [x.unit for x in r.values], units, lambda: ctx)
        for x in r.values:
            k = () if x.unit == 'number' else ((CANON[x.unit], 1),)
            m.check(tag + '.to-sum', near(x.value, want.get(k, 0) / RATIO.get(x.unit, 1), scale / RATIO.get(x.unit, 1)), lambda: (x.unit, x.value, want, ctx))
        if len(units) > 1:
            m.raises(tag + '.to-sum.missing', ValueError, lambda: v.to_sum(*[u for u in units if u not in units[:1] or ((CANON[u], 1),) not in want and u != 'number'])
                     if (((CANON.get(units[0]), 1),) in want or units[0] == 'number') and [u for u in units[1:]] else v.to_sum('fr'), lambda: (units, ctx))


def check_type(m, tag, v, t, ctx):
    d, hint = typed(t)
    got = v.type()
    m.eq(tag + '.type', {k: x for k, x in got.items() if x and k != 'percent_hint'}, d, lambda: ctx)
    m.eq(tag + '.type.hint', got.get('percent_hint') or 'percent', hint, lambda: ctx)
    if hint != 'percent':
        m.saw('hint')


def mutate(rng, t):
    """The tree with one leaf changed."""
    if t[0] == 'u':
        if rng.random() < 0.5 or t[2] == 'number':
            return ('u', t[1] + 1, t[2])
        return ('u', t[1], rng.choice([u for u in UNITS[BASE[t[2]]] if u != t[2]] or ['number']))
    args = list(t[1:] if t[0] == 'clamp' else t[1])
    x = rng.random()
    if x < 0.25 and t[0] in ('max', 'min', 'sum', 'prod'):
        return (rng.choice([o for o in ('max', 'min', 'sum', 'prod') if o != t[0]]), args)
    if x < 0.3 and t[0] != 'clamp':
        return ({'neg': 'inv', 'inv': 'neg'}[t[0]], args) if t[0] in ('neg', 'inv') else (t[0], args + [args[-1]])
    k = rng.randrange(len(args))
    args[k] = mutate(rng, args[k])
    return (t[0],) + tuple(args) if t[0] == 'clamp' else (t[0], args)


def walk(v, out):
    """The unit values of an expression from left to right."""
    if isinstance(v, CSSUnitValue):
        out.append(v)
    elif isinstance(v, CSSMathClamp):
        for x in (v.min, v.val, v.max):
            walk(x, out)
    else:
        for x in ([v.value] if isinstance(v, (CSSMathNegate, CSSMathInvert)) else v.values):
            walk(x, out)


def tree_leaves(t):
    if t[0] == 'u':
        yield t
    else:
        for x in t[1:] if t[0] == 'clamp' else t[1]:
            yield from tree_leaves(x)


def replaced(t, k, new):
    """The tree with leaf number k replaced."""
    n = [0]

    def go(t):
        if t[0] == 'u':
            n[0] += 1
            return new if n[0] - 1 == k else t
        args = [go(x) for x in (t[1:] if t[0] == 'clamp' else t[1])]
        return (t[0],) + tuple(args) if t[0] == 'clamp' else (t[0], args)
    return go(t)


BAD = ['calc()', 'calc( )', 'calc(1 2)', 'calc(1px+2px)', 'calc(1px -2px)', 'calc(1 +)', 'calc(* 2)', 'calc(1 * / 2)', 'calc(1, 2)', 'max()', 'max(1px,)', 'max(,1px)',
       'max(1px 2px)', 'clamp(1, 2)', 'clamp(1, 2, 3, 4)', 'foo(1px)', 'calc(foo(1px))', 'px', '1xx', 'calc(1xx)', '', '1px 2px', 'calc(())', 'calc([1])', 'calc("1")', '#123',
       'calc(1px + 1s)', 'max(1px, 1)', 'calc(1px * 1px + 1px)', 'calc(1 + 1deg)', 'clamp(1px, 1s, 2px)', 'calc(1px + (1s))', 'calc(1 ! 2)', 'calc(a)', 'min(1hz, 1ms)']


def case(m, rng, i):
    if rng.random() < 0.04:
        t = rng.choice(BAD)
        m.raises('bad', ValueError, lambda: CSSNumericValue.parse(t), t)
        return
    base = rng.choice([None, None, 'length', 'length', 'length', 'length', 'angle', 'time', 'frequency', 'resolution', 'percent', 'flex'])
    t = gen(rng, base, rng.choice([0, 1, 2, 2, 3, 4]))
    try:
        p = value(t)
    except ZeroDivisionError:
        return
    scale = size(t)
    try:
        typed(t)
        bad = False
    except Mismatch:
        bad = True
    ctx = (t,)
    text = Writer(rng).top(t)
    if bad and undecided(t):
        return
    if bad:
        m.raises('mismatch', ValueError, lambda: build(t, []), ctx)
        m.raises('mismatch.parse', ValueError, lambda: CSSNumericValue.parse(text), (text,))
        return
    m.state('tree', repr(t))
    leaves = []
    v = build(t, leaves)
    check_value(m, 'built', v, p, scale, rng, ctx)
    check_type(m, 'built', v, t, ctx)
    # text
    out = v.tostring()
    try:
        back = Reader(out).top()
        p2 = value(back)
    except (ValueError, IndexError, ZeroDivisionError) as e:
        m.fail('text.invalid', (out, repr(e), ctx))
    m.check('text', same(p2, p, scale) and typed(back) == typed(t), lambda: (out, p2, p, ctx))
    again = CSSNumericValue.parse(out)
    check_value(m, 'reread', again, p, scale, rng, (out, ctx))
    m.eq('reread.text', again.tostring(), out, ctx)
    # parsing
    q = CSSNumericValue.parse(text)
    check_value(m, 'parsed', q, p, scale, rng, (text, ctx))
    check_type(m, 'parsed', q, t, (text, ctx))
    m.eq('parsed.text', q.tostring(), text, ctx)
    # a parsed value inside another
    w = rng.choice([lambda: (CSSMathNegate(q), ('neg', [t])), lambda: (CSSMathProduct(2, q), ('prod', [('u', 2, 'number'), t])), lambda: (CSSMathSum(v, q), ('sum', [t, t])),
                    lambda: (CSSMathSum(q, CSSMathNegate(v)), ('sum', [t, ('neg', [t])])), lambda: (CSSMathMax(q, v), ('max', [t, t]))])()
    pw = value(w[1])
    out = w[0].tostring()
    try:
        p2 = value(Reader(out).top())
    except (ValueError, IndexError) as e:
        m.fail('text.invalid', (out, repr(e), ctx))
    m.check('text', same(p2, pw, 2 * scale), lambda: (out, p2, pw, ctx))
    check_value(m, 'nested', w[0], pw, 2 * scale, rng, (out, ctx))
    # equality
    m.check('equals', v.equals(build(t, [])) and v.equals(), ctx)
    t2 = mutate(rng, t)
    try:
        other = build(t2, [])
    except ValueError:
        other = None
    if other is not None:
        m.check('equals.not', not v.equals(other) and not v.equals(v, other), (t2, ctx))
    # add
    if p is not None and rng.random() < 0.5:
        x = gen(rng, base, 1)
        try:
            px = value(('sum', [t, x]))
            ok = typed(('sum', [t, x]))
        except (Mismatch, ZeroDivisionError):
            ok = None
        if ok:
            r = v.add(build(x, []))
            check_value(m, 'added', r, px, scale + size(x), rng, (x, ctx))
    # nothing changed the parts
    for r, n in leaves:
        m.check('leaf', r.unit == n[2] and near(r.value, n[1]), lambda: (n, ctx))
        check_type(m, 'leaf', r, n, ctx)
    check_value(m, 'still', v, p, scale, rng, ctx)
    # a change of one part of a parsed expression shows in its amount and its text
    parts = []
    walk(q, parts)
    tree = Reader(text).top()
    nodes = list(tree_leaves(tree))
    if [(r.unit, float(r.value)) for r in parts] == [(n[2], float(n[1])) for n in nodes] and p is not None:
        k = rng.randrange(len(parts))
        n = rng.choice([x for x in NUMBERS if x != nodes[k][1] and x])
        t3 = replaced(tree, k, ('u', n, nodes[k][2]))
        try:
            p3 = value(t3)
        except ZeroDivisionError:
            p3 = 'undefined'
        if p3 != 'undefined' and typed(t3) == typed(tree):
            parts[k].value = n
            out = q.tostring()
            try:
                p4 = value(Reader(out).top())
            except (ValueError, IndexError, ZeroDivisionError) as e:
                m.fail('part.text.invalid', (out, repr(e), ctx))
            m.check('part.text', same(p4, p3, size(t3)), lambda: (text, out, p4, p3))
            check_value(m, 'part', q, p3, size(t3), rng, (text, k, n))
            parts[k].value = nodes[k][1]
            m.check('part.back', same(value(Reader(q.tostring()).top()), p, scale), lambda: (text, q.tostring()))
    # one value: comparison and change
    a = ('u', rng.choice(NUMBERS), rng.choice(ALL))
    kin = [u for u in ALL if u != 'number' and a[2] != 'number' and CANON[u] == CANON[a[2]]] or ['number']
    b = ('u', rng.choice(NUMBERS), rng.choice(kin))
    A, B = CSSUnitValue(*a[1:]), CSSNumericValue.parse(Writer(rng).unit(b))
    x, y = list(value(a).values())[0], list(value(b).values())[0]
    if x == y or abs(x - y) > 1e-5 * max(abs(x), abs(y)):
        got = (A == B, A != B, A < B, A <= B, A > B, A >= B)
        m.eq('compare', got, (x == y, x != y, x < y, x <= y, x > y, x >= y), (a, b))
    if a[2] == 'number':
        m.eq('compare.number', (A == b[1], A < b[1], A >= b[1]), (x == y, x < y, x >= y), (a, b))
    n = rng.choice(NUMBERS)
    B.value = n
    c = ('u', n, b[2])
    m.check('changed', near(B.value, n) and same(value(Reader(B.tostring()).top()), value(c), 1), lambda: (b, n, B.tostring()))
    check_value(m, 'changed', B, value(c), 1, rng, (b, n))
    name = {'in': 'in_'}.get(b[2], b[2])
    f = getattr(CSS, name)(b[1])
    m.check('factory', f.unit == b[2] and near(f.value, b[1]), lambda: (b, f))


if __name__ == '__main__':
    vf.main(vf.Spec('L02', case, quick=9000, thorough=300000,
                    rule='numeric expression trees to depth four over every unit, built from objects and read from freely formatted text',
                    required=['part.sum', 'part.text', 'part.back', 'built.sum', 'built.to', 'built.to-error', 'built.type', 'built.to-sum', 'parsed.sum', 'reread.sum', 'text', 'mismatch', 'mismatch.parse',
                              'bad', 'equals', 'equals.not', 'added.sum', 'leaf', 'compare', 'changed', 'factory', 'nested.sum', 'sum.none', 'sum.value', 'hint'],
                    anchors=['svgpy/css/types.py'],
                    assumptions=['reciprocals of zero are not generated']))
