"""G01: DOMMatrix / DOMMatrixReadOnly against an independent 4x4 model, over operation histories."""
import operator
import math

import vf
from gen import angle, num

from algebra import *  # noqa: F401,F403


def same(m, name, real, model, tol, ctx):
    got = [getattr(real, n) for n in NAMES]
    want = to16(model)
    m.saw(name)
    for n, g, w in zip(NAMES, got, want):
        if not abs(g - w) <= tol:
            m.fail(name, {'element': n, 'got': float(g), 'want': w, 'all_got': [float(x) for x in got],
                          'all_want': want, 'ctx': ctx})


def setup(m):
    global DOMMatrix, DOMMatrixReadOnly
    from svgpy.geometry.matrix import DOMMatrix, DOMMatrixReadOnly


def skew_angle(rng):
    while True:
        a = angle(rng)
        if abs(math.cos(math.radians(a))) > 0.05:
            return a


def axis(rng):
    if rng.random() < 0.5:
        return rng.choice([(0, 0, 1), (0, 1, 0), (1, 0, 0), (0, 0, -1), (0, -1, 0), (-1, 0, 0),
                           (0, 0, 2), (0, 3, 0), (5, 0, 0), (0, 0, 0), (1, 1, 0), (0, 1, 1),
                           (1, 0, 1), (1, 1, 1), (-1, 0, 0.5)])
    return tuple(num(rng, -3, 3) for _ in range(3))


def origin(rng, p=0.5):
    if rng.random() < p:
        return 0
    return num(rng, -20, 20)


def gen_op(rng, other):
    """-> (name, args, model matrix to post-multiply, makes 3d)"""
    r = rng.randrange(13)
    if r == 0:
        a = (num(rng), num(rng), num(rng) if rng.random() < 0.25 else 0)
        if rng.random() < 0.2:
            a = a[:rng.randint(0, 2)]
        full = list(a) + [0] * (3 - len(a))
        return 'translate', a, mtranslate(*full), full[2] != 0
    if r in (1, 2):
        args = [num(rng, -3, 3), rng.choice([None, num(rng, -3, 3), num(rng, -3, 3)]),
                rng.choice([1, 1, 1, num(rng, -3, 3)]), origin(rng), origin(rng), origin(rng, 0.8)]
        if rng.random() < 0.1:
            args[0] = args[1] = 1
        args = args[:rng.randint(1, 6)]
        full = args + [None, None, 1, 0, 0, 0][len(args):]
        sx, sy, sz, ox, oy, oz = full
        if sy is None:
            sy = sx
        m = mul(mul(mtranslate(ox, oy, oz), mscale(sx, sy, sz)), mtranslate(-ox, -oy, -oz))
        noop = sx == 1 and sy == 1 and sz == 1
        return 'scale', tuple(args), m, not noop and (sz != 1 or oz != 0)
    if r == 3:
        args = [num(rng, -3, 3), origin(rng), origin(rng), origin(rng)][:rng.randint(1, 4)]
        s, ox, oy, oz = args + [0] * (4 - len(args))
        m = mul(mul(mtranslate(ox, oy, oz), mscale(s, s, s)), mtranslate(-ox, -oy, -oz))
        return 'scale3d', tuple(args), m, s != 1
    if r in (4, 5):
        rx = angle(rng) if rng.random() < 0.3 else 0
        ry = angle(rng) if rng.random() < 0.3 else 0
        rz = angle(rng)
        m = mul(mul(maxis(0, 0, 1, rz), maxis(0, 1, 0, ry)), maxis(1, 0, 0, rx))
        return 'rotate', (rx, ry, rz), m, rx != 0 or ry != 0
    if r == 6:
        x, y, z = axis(rng)
        a = angle(rng)
        return 'rotate_axis_angle', (x, y, z, a), maxis(x, y, z, a), x != 0 or y != 0
    if r == 7:
        x, y = num(rng, -5, 5), num(rng, -5, 5)
        t = math.degrees(math.atan2(y, x))
        return 'rotate_from_vector', (x, y), maxis(0, 0, 1, t), False
    if r == 8:
        a = skew_angle(rng)
        return 'skew_x', (a,), mskew(a, 0), False
    if r == 9:
        a = skew_angle(rng)
        return 'skew_y', (a,), mskew(0, a), False
    if r == 10:
        return 'flip_x', (), mscale(-1, 1, 1), False
    if r == 11:
        return 'flip_y', (), mscale(1, -1, 1), False
    real, model, is2d = other
    return 'multiply', (real,), model, not is2d


def new_matrix(m, rng, cls):
    """-> (real, model, is2d)"""
    r = rng.random()
    if r < 0.15:
        return cls(), eye(), True
    if r < 0.5:
        v = [num(rng, -5, 5) for _ in range(6)]
        real = cls(v) if rng.random() < 0.6 else cls.from_float_array(v)
        m.check('new.type', type(real) is cls, lambda: (type(real), cls))
        return real, from6(v), True
    if r < 0.7:
        v = [num(rng, -5, 5) for _ in range(16)]
        if rng.random() < 0.3:
            v = to16(from6([num(rng, -5, 5) for _ in range(6)]))
        real = cls(v) if rng.random() < 0.5 else cls.from_float_array(v)
        return real, from16(v), False
    # keyword form: 2d names, 3d names, or both when they agree
    model = eye()
    init = {}
    is2d = True
    two = {'a': 'm11', 'b': 'm12', 'c': 'm21', 'd': 'm22', 'e': 'm41', 'f': 'm42'}
    for short, name in two.items():
        if rng.random() < 0.6:
            v = num(rng, -5, 5)
            c, rr = int(name[1]) - 1, int(name[2]) - 1
            model[rr][c] = float(v)
            k = rng.randrange(3)
            if k in (0, 2):
                init[short] = v
            if k in (1, 2):
                init[name] = v
    three = [n for n in NAMES if n not in two.values()]
    if rng.random() < 0.4:
        for name in three:
            if rng.random() < 0.4:
                c, rr = int(name[1]) - 1, int(name[2]) - 1
                v = num(rng, -5, 5) if rng.random() < 0.5 else (1 if c == rr else 0)
                model[rr][c] = float(v)
                init[name] = v
        is2d = all(model[int(n[2]) - 1][int(n[1]) - 1] == (1 if n[1] == n[2] else 0) for n in three)
    if rng.random() < 0.4:
        if rng.random() < 0.5 or not is2d:
            init['is2d'] = False
            is2d = False
        else:
            init['is2d'] = True
    real = cls(**init) if rng.random() < 0.5 else cls.from_matrix(init)
    return real, model, is2d


def observe(m, rng, real, model, is2d, tol, ctx):
    same(m, 'elements', real, model, tol, ctx)
    m.check('is2d', real.is2d is is2d or real.is2d == is2d, lambda: {'got': real.is2d, 'want': is2d, 'ctx': ctx()})
    for short, name in zip('abcdef', ('m11', 'm12', 'm21', 'm22', 'm41', 'm42')):
        m.eq('alias', getattr(real, short), getattr(real, name), short)
    arr = real.to_float_array()
    m.eq('to_float_array', [float(x) for x in arr], [float(getattr(real, n)) for n in NAMES], ctx)
    ident = all(getattr(real, n) == (1 if n[1] == n[2] else 0) for n in NAMES)
    m.eq('isidentity', bool(real.isidentity), ident, ctx)
    lst = real.tolist()
    if is2d:
        m.eq('tolist', [float(x) for x in lst], [float(getattr(real, k)) for k in 'abcdef'], ctx)
    else:
        m.eq('tolist', [float(x) for x in lst], [float(x) for x in arr], ctx)
    js = real.tojson()
    back = DOMMatrix(**js)
    # a flat matrix is written as six numbers: what rounding left in the others is lost
    m.check('tojson', all(getattr(back, n) == getattr(real, n) if n in js or not is2d else abs(getattr(back, n) - getattr(real, n)) < 1e-12 for n in NAMES)
            and bool(back.is2d) == bool(is2d), lambda: (js, ctx()))
    # points
    for _ in range(2):
        x, y, z, w = num(rng), num(rng), rng.choice([0, 0, num(rng)]), rng.choice([1, 1, num(rng, -2, 2)])
        p = (x, y) if z == 0 and w == 1 and rng.random() < 0.5 else ((x, y, z) if w == 1 else (x, y, z, w))
        got = real.transform_point(*p)
        want = [math.fsum(model[r][k] * (x, y, z, w)[k] for k in range(4)) for r in range(4)]
        n = 2 if is2d and z == 0 and w == 1 else 4
        m.eq('transform_point.arity', len(got), n, ctx)
        for g, wv in zip(got, want):
            m.close('transform_point', g, wv, tol * 300 + 1e-9, lambda: (p, got, want, ctx()))
    # decomposition getters
    t = real.get_translate()
    m.check('get_translate', tuple(t) == ((real.m41, real.m42) if is2d else (real.m41, real.m42, real.m43)), ctx)
    col = [math.sqrt(sum(model[r][c] ** 2 for r in range(3))) for c in range(3)]
    if is2d:
        col = [math.hypot(model[0][0], model[1][0]), math.hypot(model[0][1], model[1][1])]
    sc = real.get_scale()
    m.eq('get_scale.arity', len(sc), len(col), ctx)
    for g, wv in zip(sc, col):
        m.close('get_scale', g, wv, tol * 4 + 1e-9, ctx)
    if is2d and math.hypot(model[0][0], model[1][0]) > 1e-6:
        want = math.atan2(float(real.m12), float(real.m11))
        for g, wv in ((real.get_angle(), math.degrees(want)), (real.get_angle(degrees=False), want)):
            m.close('get_angle', g, wv, 1e-9, ctx)
    # text
    s = real.tostring()
    name = 'matrix' if is2d else 'matrix3d'
    m.check('tostring.form', s.startswith(name + '(') and s.endswith(')'), lambda: (s, ctx()))
    vals = [float(x) for x in s[len(name) + 1:-1].split(',')]
    m.eq('tostring.len', len(vals), 6 if is2d else 16, s)
    for g, wv in zip(vals, lst):
        m.close('tostring.value', g, float(wv), 0.6e-6, lambda: (s, ctx()))


def case(m, rng, i):
    cls = DOMMatrixReadOnly if rng.random() < 0.25 else DOMMatrix
    real, model, is2d = new_matrix(m, rng, cls)
    hist = [('new', cls.__name__, to16(model), is2d)]
    m.event(*hist[0])
    ctx = lambda: hist[-12:]
    observe(m, rng, real, model, is2d, 0, ctx)
    tol = 1e-12
    for step in range(rng.randint(1, 10)):
        other = new_matrix(m, rng, rng.choice([DOMMatrix, DOMMatrixReadOnly]))
        op, args, mm, to3d = gen_op(rng, other)
        before = [float(getattr(real, n)) for n in NAMES]
        b2d = bool(real.is2d)
        want = mul(model, mm)
        want2d = is2d and not to3d
        tol2 = (tol * 8 * (1 + mag(mm)) + 1e-12 * (1 + mag(model)) * (1 + mag(mm)) * 8)
        hist.append((op, tuple(to16(other[1]) if a is other[0] else a for a in args)))
        m.event(*hist[-1])
        if mag(want) > 1e7 or tol2 > 1e-4:
            break
        # the pure variant: a new DOMMatrix, receiver and argument untouched
        if op == 'multiply':
            oth_before = [float(getattr(other[0], n)) for n in NAMES]
            pure = real * other[0] if rng.random() < 0.5 else real.multiply(other[0])
            m.eq('argument untouched', [float(getattr(other[0], n)) for n in NAMES], oth_before, ctx)
        else:
            pure = getattr(real, op)(*args)
        m.check('pure.type', type(pure) is DOMMatrix, lambda: (op, type(pure)))
        m.check('pure.new object', pure is not real and pure is not other[0], lambda: op)
        m.check('receiver untouched', [float(getattr(real, n)) for n in NAMES] == before and bool(real.is2d) == b2d,
                lambda: (before, [float(getattr(real, n)) for n in NAMES], ctx()))
        same(m, 'pure.' + op, pure, want, tol2, ctx)
        m.check('pure.is2d', bool(pure.is2d) == want2d, lambda: (op, args, pure.is2d, want2d, ctx()))
        # no sharing: mutating the result must not reach the receiver or the argument
        keep = [float(getattr(pure, n)) for n in NAMES]
        probe = DOMMatrix(pure.to_float_array())
        pure.e += 17.5
        pure.translate_self(3, 4).scale_self(2)
        m.check('no aliasing', [float(getattr(real, n)) for n in NAMES] == before, ctx)
        if op == 'multiply':
            m.check('no aliasing arg', [float(getattr(other[0], n)) for n in NAMES] == oth_before, ctx)
        if cls is DOMMatrix:
            # in place: same object, same value
            if op == 'multiply' and rng.random() < 0.5:
                out = real
                out *= other[0]
                m.check('in place', out is real, ctx)
            elif op in ('flip_x', 'flip_y'):
                real = DOMMatrix(probe.tolist() if not want2d else [probe.a, probe.b, probe.c, probe.d, probe.e, probe.f])
            else:
                out = getattr(real, op + '_self')(*args)
                m.check('in place', out is real, lambda: (op, ctx()))
            model, is2d, tol = want, want2d, tol2
            if op == 'multiply':
                m.eq('argument untouched', [float(getattr(other[0], n)) for n in NAMES], oth_before, ctx)
            same(m, 'self.' + op, real, model, tol, ctx)
            for n, k in zip(NAMES, keep):
                m.close('self=pure', float(getattr(real, n)), k, 1e-9 * (1 + abs(k)), lambda: (op, n, ctx()))
            # setters
            if rng.random() < 0.3:
                n = rng.choice(NAMES + list('abcdef'))
                v = rng.choice([0, 1, num(rng, -5, 5)])
                setattr(real, n, v)
                full = dict(zip('abcdef', ('m11', 'm12', 'm21', 'm22', 'm41', 'm42'))).get(n, n)
                c, r = int(full[1]) - 1, int(full[2]) - 1
                model = [row[:] for row in model]
                model[r][c] = float(v)
                if full not in ('m11', 'm12', 'm21', 'm22', 'm41', 'm42') and v != (1 if c == r else 0):
                    is2d = False
                hist.append(('set', n, v))
            if rng.random() < 0.04:
                out = real.clear()
                m.check('clear', out is real and bool(real.isidentity), ctx)
                model = eye()
                hist.append(('clear',))
            observe(m, rng, real, model, is2d, tol, ctx)
        else:
            m.check('read-only', not hasattr(real, op + '_self'), lambda: op)
            if op == 'multiply':
                out = real
                out *= other[0]
                m.check('read-only', out is not real, ctx)
                if out is not None:     # a refused in-place product is None by the tests
                    same(m, 'pure.multiply', out, want, tol2, ctx)
                m.check('receiver untouched', [float(getattr(real, n)) for n in NAMES] == before, ctx)
            n = rng.choice(NAMES + list('abcdef') + ['is2d'])
            m.raises('read-only setter', AttributeError, lambda: setattr(real, n, 5))
        m.state(op, want2d, cls.__name__, tuple(round(x, 3) for x in keep))
    # inverse
    det_ok = False
    try:
        inv = real.inverse()
        det_ok = True
    except Exception as e:
        import numpy
        m.check('inverse.error', isinstance(e, numpy.linalg.LinAlgError), lambda: repr(e))
        m.saw('inverse.singular')
    if det_ok:
        im = from16([float(getattr(inv, n)) for n in NAMES])
        cond = mag(im) * mag(model)
        m.check('inverse.is2d', bool(inv.is2d) == is2d, ctx)
        m.check('inverse.type', type(inv) is DOMMatrix and inv is not real, ctx)
        if cond < 1e7:
            p = mul(model, im)
            q = mul(im, model)
            for prod in (p, q):
                for r in range(4):
                    for c in range(4):
                        m.close('inverse', prod[r][c], 1.0 if r == c else 0.0, 1e-8 + 1e-13 * cond, ctx)
            if cls is DOMMatrix:
                keep = real.to_float_array()
                out = real.invert_self()
                m.check('invert_self', out is real and
                        all(abs(getattr(real, n) - getattr(inv, n)) <= 1e-9 * (1 + abs(getattr(inv, n)))
                            for n in NAMES) and bool(real.is2d) == is2d, ctx)
    # equality is elementwise
    twin = DOMMatrix(real.to_float_array())
    m.check('eq', (twin == real) is True or bool(twin == real), ctx)
    n = rng.choice(NAMES)
    setattr(twin, n, getattr(twin, n) + 1)
    m.check('ne', not bool(twin == real), lambda: (n, ctx()))
    if len(m.samples) < 2:
        m.sample({'history': [repr(h) for h in hist][:6], 'final': [float(x) for x in real.to_float_array()]})


def errors(m, rng):
    for cls in (DOMMatrix, DOMMatrixReadOnly):
        for n in (0, 1, 5, 7, 12, 15, 17):
            m.raises('bad length', TypeError, lambda: cls([1.0] * n), n)
            m.raises('bad length', TypeError, lambda: cls.from_float_array([1.0] * n), n)
        for s, l in zip('abcdef', ('m11', 'm12', 'm21', 'm22', 'm41', 'm42')):
            m.raises('conflict', ValueError, lambda: cls(**{s: 2, l: 3}), s)
            cls(**{s: 2, l: 2})
        m.raises('unknown keyword', TypeError, lambda: cls(m55=1))
        for x in (2, None, 'x', [1, 0, 0, 1, 0, 0]):
            for f in (operator.mul, operator.imul)[:2 if cls is DOMMatrix else 1]:
                m.raises('operand', TypeError, lambda: f(cls(), x), x)
            m.check('operand', not cls() == x and cls() != x, x)
        for n in NAMES:
            if n in ('m11', 'm12', 'm21', 'm22', 'm41', 'm42'):
                continue
            bad = 0 if n[1] == n[2] else 1
            m.raises('2d with 3d parts', ValueError, lambda: cls(**{n: bad, 'is2d': True}), n)
            cls(**{n: 1 - bad, 'is2d': True})
            m.check('3d part', cls(**{n: bad}).is2d is False, n)
    for v in ([0, 0, 0, 0, 5, 6], [1, 2, 0, 0, 0, 0], [1, 2, 2, 4, 0, 0]):
        for cls in (DOMMatrix, DOMMatrixReadOnly):
            try:
                inv = cls(v).inverse()
            except Exception as e:
                import numpy
                m.check('singular', isinstance(e, numpy.linalg.LinAlgError), repr(e))
            else:
                m.check('singular', any(x != x or abs(x) == math.inf for x in inv.to_float_array()), v)
    a = DOMMatrix([1, 2, 3, 4, 5, 6])
    m.check('pure 3d rotation angles', True, '')
    for _ in range(50):
        rx, ry, rz = rng.uniform(-179, 179), rng.uniform(-89, 89), rng.uniform(-179, 179)
        got = DOMMatrix().rotate(rx, ry, rz)
        if got.is2d:
            continue
        for g, w in zip(got.get_angle(), (rx, ry, rz)):
            m.close('get_angle 3d', g, w, 1e-6, (rx, ry, rz))
        t = [rng.uniform(-50, 50) for _ in range(3)]
        sc = [rng.uniform(0.1, 5) for _ in range(3)]
        placed = DOMMatrix().translate(*t).rotate(rx, ry, rz)
        for g, w in zip(placed.get_angle(), (rx, ry, rz)):
            m.close('get_angle 3d', g, w, 1e-6, (t, rx, ry, rz))
        for g, w in zip(placed.get_angle(degrees=False), (rx, ry, rz)):
            m.close('get_angle 3d', g, math.radians(w), 1e-7, (t, rx, ry, rz))
        for g, w in zip(placed.scale(*sc).get_scale(), sc):
            m.close('get_scale 3d', g, w, 1e-7, (t, rx, ry, rz, sc))


vf.main(vf.Spec(
    'G01', case, quick=16000, thorough=400000, setup=setup, fixed=[errors],
    rule='random operation histories (1-10 steps) over DOMMatrix and DOMMatrixReadOnly, arguments from '
         'adversarial pools; non-trivial = a step whose (operation, class, resulting 16 elements rounded) '
         'was not seen before',
    required=['pure.multiply', 'pure.rotate', 'pure.scale', 'pure.skew_x', 'pure.rotate_axis_angle', 'inverse',
              'read-only setter', 'receiver untouched', 'no aliasing', 'self=pure'],
    anchors=['svgpy/geometry/matrix.py']))
