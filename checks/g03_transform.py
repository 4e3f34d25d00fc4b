"""G03: SVGTransform / SVGTransformList: text round trip, matrix product, list model, consolidation."""
import math

import vf
from gen import angle, num

from svgpy import DOMMatrix, SVGTransform, SVGTransformList, formatter
from algebra import eye, from6, mul, mskew, mtranslate, mscale, maxis, mag

T = SVGTransform
KINDS = {'matrix': T.SVG_TRANSFORM_MATRIX, 'translate': T.SVG_TRANSFORM_TRANSLATE,
         'scale': T.SVG_TRANSFORM_SCALE, 'rotate': T.SVG_TRANSFORM_ROTATE,
         'skewX': T.SVG_TRANSFORM_SKEWX, 'skewY': T.SVG_TRANSFORM_SKEWY}


def rand_transform(rng):
    """(name, args as written, full values)"""
    name = rng.choice(list(KINDS))
    if name == 'matrix':
        args = [num(rng, -10, 10) for _ in range(6)]
        full = args
    elif name == 'translate':
        args = [num(rng) for _ in range(rng.choice([1, 2]))]
        full = args if len(args) == 2 else args + [0]
    elif name == 'scale':
        args = [num(rng, -5, 5) for _ in range(rng.choice([1, 2]))]
        if rng.random() < 0.2:
            args = [args[0], args[0]]
        full = args if len(args) == 2 else args * 2
    elif name == 'rotate':
        args = [angle(rng)] + ([num(rng), num(rng)] if rng.random() < 0.5 else [])
        if len(args) == 3 and rng.random() < 0.4:
            args[rng.choice([1, 2])] = 0
        full = args if len(args) == 3 else args + [0, 0]
    else:
        args = [rng.uniform(-80, 80) if rng.random() < 0.5 else rng.choice([0, 30, -30, 45, -60])]
        full = args
    return name, list(args), [float(x) for x in full]


def model(name, full):
    if name == 'matrix':
        return from6(full)
    if name == 'translate':
        return mtranslate(full[0], full[1], 0)
    if name == 'scale':
        return mscale(full[0], full[1], 1)
    if name == 'rotate':
        a, cx, cy = full
        return mul(mul(mtranslate(cx, cy, 0), maxis(0, 0, 1, a)), mtranslate(-cx, -cy, 0))
    if name == 'skewX':
        return mskew(full[0], 0)
    return mskew(0, full[0])


def product(items):
    out = eye()
    for name, full in items:
        out = mul(out, model(name, full))
    return out


def spell(rng, x):
    """One of the ways SVG lets a number be written."""
    s = repr(x)
    if 'e' in s:
        return s if rng.random() < 0.5 else s.replace('e', 'E')
    k = rng.random()
    if k < 0.15 and s.startswith('0.'):
        return s[1:] + rng.choice(['', '', 'e0', 'E+0', 'e-0'])
    if k < 0.15 and s.startswith('-0.'):
        return '-' + s[2:] + rng.choice(['', '', 'e0', 'E+0', 'e-0'])
    if k < 0.2 and abs(x) >= 1 and '.' in s:
        # 12.5 as .125e2
        sign, digits = ('-', s[1:]) if s[0] == '-' else ('', s)
        a, b = digits.split('.')
        return '%s.%s%se%d' % (sign, a, b, len(a))
    if k < 0.3 and not s.startswith('-'):
        return '+' + s
    if k < 0.4:
        return '%se0' % s if rng.random() < 0.5 else '%s0E-1' % s if '.' not in s else s
    return s


def text_of(rng, items):
    parts = []
    for name, args in items:
        sep = lambda: rng.choice([' ', ',', ', ', ' , ', '  ', '\n', '\t'])
        body = ''
        for k, a in enumerate(args):
            s = spell(rng, a)
            if k:
                body += '' if s[0] in '+-' and rng.random() < 0.4 else sep()
            body += s
        parts.append('%s%s(%s%s%s)' % (name, rng.choice(['', '', ' ']), rng.choice(['', '', ' ']), body,
                                      rng.choice(['', '', ' '])))
    out = rng.choice(['', '', ' '])
    for k, p in enumerate(parts):
        if k:
            out += rng.choice([' ', ',', ', ', ' , ', '\n', '  ', ''])
        out += p
    return out + rng.choice(['', '', ' '])


def same_matrix(m, name, real, want, ctx):
    m.saw(name)
    if real is None:
        m.fail(name, {'got': None, 'ctx': ctx})
    got = [float(getattr(real, k)) for k in 'abcdef']
    w = [want[0][0], want[1][0], want[0][1], want[1][1], want[0][3], want[1][3]]
    tol = 1e-9 * (1 + mag(want)) * 100
    for g, v in zip(got, w):
        if not abs(g - v) <= tol:
            m.fail(name, {'got': got, 'want': w, 'ctx': ctx})
    m.check(name, real.is2d, ctx)


def check_values(m, name, t, kind, full, tol, ctx):
    m.eq(name, t.type, KINDS[kind], ctx)
    m.eq(name, len(t.values), len(full), ctx)
    for g, w in zip(t.values, full):
        m.close(name, g, w, tol, ctx)
    want = full[0] if kind in ('rotate', 'skewX', 'skewY') else 0
    m.close('angle', t.angle, want, tol, ctx)


def single(m, rng):
    name, args, full = rand_transform(rng)
    ctx = (name, args)
    t = T(KINDS[name], *args)
    check_values(m, 'set', t, name, full, 0, ctx)
    same_matrix(m, 'matrix', t.matrix, model(name, full), ctx)
    # re-setting replaces the previous state altogether
    name2, args2, full2 = rand_transform(rng)
    fn = {'translate': t.set_translate, 'scale': t.set_scale, 'rotate': t.set_rotate, 'skewX': t.set_skew_x,
          'skewY': t.set_skew_y}.get(name2)
    if fn is not None and rng.random() < 0.7:
        fn(*args2)
    elif name2 == 'matrix' and rng.random() < 0.7:
        t.set_matrix(DOMMatrix(list(args2)))
    else:
        t.set(KINDS[name2], *args2)
    check_values(m, 'set', t, name2, full2, 0, (ctx, name2, args2))
    same_matrix(m, 'matrix', t.matrix, model(name2, full2), (ctx, name2, args2))
    t2 = T.from_matrix(t.matrix)
    m.eq('from-matrix', t2.type, T.SVG_TRANSFORM_MATRIX)
    same_matrix(m, 'from-matrix', t2.matrix, model(name2, full2), (name2, args2))
    m3 = DOMMatrix()
    m3.rotate_self(rot_x=30)
    before = (t.type, t.values)
    m.raises('3d', ValueError, lambda: t.set_matrix(m3))
    m.eq('3d', (t.type, t.values), before)
    m.state('single', name, len(args), name2, len(args2))


def parse_case(m, rng):
    items = [rand_transform(rng) for _ in range(rng.randint(0, 5))]
    text = text_of(rng, [(n, a) for n, a, _ in items])
    m.event(text)
    lst = SVGTransformList.parse(text) if rng.random() < 0.7 else SVGTransformList(text)
    m.eq('parse', len(lst), len(items), text)
    for t, (n, a, full) in zip(lst, items):
        check_values(m, 'parse', t, n, full, 1e-12 * (1 + max(abs(x) for x in full)), text)
    if items:
        same_matrix(m, 'list-matrix', lst.matrix, product([(n, f) for n, _, f in items]), text)
    else:
        m.check('list-matrix', lst.matrix is None, text)
    old = formatter.precision
    formatter.precision = p = rng.choice([1, 2, 3, 6, 9])
    try:
        out = lst.tostring(delimiter=rng.choice([None, ' ', ',', ', ']))
        one = [t.tostring() for t in lst]
    finally:
        formatter.precision = old
    back = SVGTransformList.parse(out)
    m.eq('round-trip', len(back), len(items), (text, out))
    for t, (n, a, full) in zip(back, items):
        check_values(m, 'round-trip', t, n, full, 0.5000001 * 10 ** -p + 1e-12 * max(abs(x) for x in full), (text, out))
    for s, (n, a, full) in zip(one, items):
        b = SVGTransformList.parse(s)
        m.eq('round-trip', len(b), 1, s)
        check_values(m, 'round-trip', b[0], n, full, 0.5000001 * 10 ** -p + 1e-12 * max(abs(x) for x in full), s)
    # via DOMMatrix.from text-like input and the attribute round trip
    m.state('parse', tuple((n, len(a)) for n, a, _ in items), p)
    m.sample({'text': text, 'written': out})


def list_case(m, rng):
    pool = [rand_transform(rng) for _ in range(6)]

    def new():
        if keep and rng.random() < 0.15:
            return rng.choice(keep)     # one object at several places
        n, a, f = rng.choice(pool)
        t = T(KINDS[n], *a)
        desc[id(t)] = (n, f)
        keep.append(t)
        return t
    desc, keep = {}, []
    mod = [new() for _ in range(rng.randint(0, 4))]
    real = SVGTransformList(list(mod))
    hist = []
    for step in range(rng.randint(1, 10)):
        op = rng.choice(['append', 'append_item', 'insert', 'insert_item_before', 'remove_item', 'replace_item', 'del',
                         'initialize', 'consolidate', 'add', 'iadd', 'clear', 'extend', 'slice', 'badtype', 'pop',
                         'reverse', 'get', 'change', 'set'])
        n = len(mod)
        hist.append(op)
        m.event(op, n)
        if op in ('append', 'append_item'):
            t = new()
            r = getattr(real, op)(t)
            mod.append(t)
            if op == 'append_item':
                m.check('returns', r is t, hist)
        elif op in ('insert', 'insert_item_before'):
            t, k = new(), rng.randint(0, n)
            if op == 'insert':
                k = rng.choice([k, -k, n + 2])
                real.insert(k, t)
            else:
                m.check('returns', real.insert_item_before(t, k) is t, hist)
            mod.insert(k, t)
        elif op in ('remove_item', 'del', 'pop', 'get'):
            if n == 0:
                m.raises('index', IndexError, lambda: real.remove_item(0) if op == 'remove_item' else
                         real.get_item(0) if op == 'get' else real.pop() if op == 'pop' else real.__delitem__(0))
                continue
            k = rng.randrange(n)
            if op == 'get':
                m.check('returns', real.get_item(k) is mod[k] and real[k] is mod[k], hist)
                m.raises('index', IndexError, lambda: real.get_item(n))
            elif op == 'remove_item':
                m.check('returns', real.remove_item(k) is mod.pop(k), hist)
            elif op == 'pop':
                k = rng.choice([k, k - n])
                m.check('returns', real.pop(k) is mod.pop(k), hist)
            else:
                k = rng.choice([k, k - n])
                del real[k]
                del mod[k]
        elif op == 'replace_item':
            if n == 0:
                continue
            t, k = new(), rng.randrange(n)
            m.check('returns', real.replace_item(t, k) is t, hist)
            mod[k] = t
        elif op == 'initialize':
            t = new()
            m.check('returns', real.initialize(t) is t, hist)
            mod = [t]
        elif op == 'clear':
            real.clear()
            mod = []
        elif op in ('extend', 'iadd'):
            ts = [new() for _ in range(rng.randint(0, 3))]
            if op == 'extend':
                real.extend(ts)
            else:
                ident = real
                real += rng.choice([list, tuple, SVGTransformList])(ts)
                m.check('returns', real is ident, hist)
            mod.extend(ts)
        elif op == 'add':
            ts = [new() for _ in range(rng.randint(0, 3))]
            r = real + rng.choice([list, tuple, SVGTransformList])(ts)
            m.check('add', isinstance(r, SVGTransformList) and r is not real, hist)
            m.eq('add', [(t.type, t.values) for t in r],
                 [(t.type, t.values) for t in mod + ts], hist)
        elif op == 'slice':
            a = rng.randint(0, n)
            b = rng.randint(a, n)
            ts = [new() for _ in range(rng.randint(0, 2))]
            real[a:b] = ts
            mod[a:b] = ts
        elif op == 'set':
            if n == 0:
                continue
            t, k = new(), rng.randrange(-n, n)
            real[k] = t
            mod[k] = t
        elif op == 'change':
            if n == 0:
                continue
            t = rng.choice(mod)
            nm, a, f = rng.choice(pool)
            t.set(KINDS[nm], *a)
            desc[id(t)] = (nm, f)
        elif op == 'reverse':
            real.reverse()
            mod.reverse()
        elif op == 'badtype':
            bad = rng.choice(['translate(1)', 3, None, DOMMatrix()])
            f = rng.choice([lambda: real.append(bad), lambda: real.insert(0, bad), lambda: real.append_item(bad),
                            lambda: real.insert_item_before(bad, 0), lambda: real.__setitem__(slice(0, 1), bad),
                            lambda: real.__setitem__(slice(0, 1), [new(), bad]), lambda: real.extend([bad]),
                            (lambda: real.replace_item(bad, 0)) if n else (lambda: real.append(bad))])
            m.raises('type', TypeError, f, hist)
        elif op == 'consolidate':
            if n == 0:
                m.check('consolidate', real.consolidate() is None and len(real) == 0, hist)
                continue
            want = product([desc[id(t)] for t in mod])
            r = real.consolidate()
            m.check('consolidate', len(real) == 1 and real[0] is r and r.type == T.SVG_TRANSFORM_MATRIX, hist)
            same_matrix(m, 'consolidate', r.matrix, want, hist)
            keep.append(r)
            desc[id(r)] = ('matrix', [float(x) for x in r.values])
            mod = [r]
        m.check('list', len(real) == len(mod) and all(x is y for x, y in zip(real, mod))
                and real.length == len(mod) and real.number_of_items == len(mod), hist)
        if mod:
            same_matrix(m, 'list-matrix', real.matrix, product([desc[id(t)] for t in mod]), hist)
            same_matrix(m, 'list-matrix', real.transform.matrix, product([desc[id(t)] for t in mod]), hist)
        else:
            m.check('list-matrix', real.matrix is None and real.transform is None, hist)
        m.state('list', op, min(n, 3))


def case(m, rng, i):
    rng.choice([single, parse_case, parse_case, list_case, list_case])(m, rng)


if __name__ == '__main__':
    vf.main(vf.Spec(
        'G03', case, quick=12000, thorough=300000,
        rule='single transforms, transform-list texts in every SVG spelling, and list histories; distinct = kinds and '
             'argument counts, or operation sequence',
        required=['set', 'matrix', 'from-matrix', '3d', 'parse', 'round-trip', 'list-matrix', 'consolidate', 'list',
                  'returns', 'type', 'index', 'add', 'angle'],
        anchors=['svgpy/transform.py', 'svgpy/formatter.py']))
