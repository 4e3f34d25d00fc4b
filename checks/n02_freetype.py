"""N02: what the FreeType objects say is what the font file says, and geometry is applied to outlines exactly.

Reference: lib/ttf.py reads the tables of the font itself; decomposition, areas, bounding boxes and matrices are
worked out here from the raw points."""
import math
import os
import struct

import ttf
import vf

FONTS = []
for base in ('/usr/share/fonts/truetype/dejavu', vf.REPO + '/tests/fonts/dejavu', vf.REPO + '/tests/fonts/vazir'):
    if os.path.isdir(base):
        FONTS += [os.path.join(base, n) for n in sorted(os.listdir(base)) if n.endswith('.ttf')]
FACES = {}
LETTERS = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'


def faces(path):
    if path not in FACES:
        if len(FACES) > 12:
            FACES.clear()
        from svgpy.freetype import FTFace
        FACES[path] = FTFace.new_face(path), ttf.Font(path)
    return FACES[path]


# --- reference geometry -----------------------------------------------------------
def contours_of(points, tags, ends):
    out, s = [], 0
    for e in ends:
        out.append([(x, y, t & 1) for (x, y), t in zip(points[s:e + 1], tags[s:e + 1])])
        s = e + 1
    return out


def decompose(contours):
    """Moves, lines and quadratic curves of TrueType contours (points between two controls are their middle)."""
    out = []
    for c in contours:
        if c[0][2]:
            start, rest = c[0][:2], c[1:]
        elif c[-1][2]:
            start, rest = c[-1][:2], c[:-1]
        else:
            start, rest = ((c[0][0] + c[-1][0]) / 2, (c[0][1] + c[-1][1]) / 2), c
        out.append(('M', start))
        control = None
        for x, y, on in rest:
            if on and control is None:
                out.append(('L', (x, y)))
            elif on:
                out.append(('Q', control, (x, y)))
                control = None
            else:
                if control is not None:
                    out.append(('Q', control, ((control[0] + x) / 2, (control[1] + y) / 2)))
                control = (x, y)
        out.append(('L', start) if control is None else ('Q', control, start))
    return out


def area(segs):
    """Signed area enclosed by the segments."""
    def cross(p, q):
        return p[0] * q[1] - p[1] * q[0]
    total = 0
    for s in segs:
        if s[0] == 'M':
            cur = s[1]
        elif s[0] == 'L':
            total += cross(cur, s[1]) / 2
            cur = s[1]
        else:
            total += (2 * cross(cur, s[1]) + 2 * cross(s[1], s[2]) + cross(cur, s[2])) / 6
            cur = s[2]
    return total


def tight(segs):
    xs, ys = [], []
    for s in segs:
        if s[0] in 'ML':
            cur = s[1]
            xs.append(cur[0])
            ys.append(cur[1])
        else:
            for k, vals in ((0, xs), (1, ys)):
                a, b, c = cur[k], s[1][k], s[2][k]
                vals.append(c)
                d = a - 2 * b + c
                if d:
                    t = (a - b) / d
                    if 0 < t < 1:
                        vals.append((1 - t) ** 2 * a + 2 * t * (1 - t) * b + t * t * c)
            cur = s[2]
    return min(xs), min(ys), max(xs), max(ys)


def near(m, name, got, want, tol, ctx):
    m.check(name, len(got) == len(want) and all(abs(a - b) <= tol for a, b in zip(got, want)),
            lambda: {'got': got, 'want': want, 'ctx': ctx() if callable(ctx) else ctx})


def walk(outline, **kw):
    out = []
    outline.decompose(lambda x, y, u: u.append(('M', (x, y))), lambda x, y, u: u.append(('L', (x, y))),
                      lambda a, b, x, y, u: u.append(('Q', (a, b), (x, y))),
                      lambda a, b, c, d, x, y, u: u.append(('C', (a, b), (c, d), (x, y))), user=out, **kw)
    return out


def same_segs(m, name, got, want, tol, ctx):
    ok = len(got) == len(want) and all(
        g[0] == w[0] and all(abs(p[0] - q[0]) <= tol and abs(p[1] - q[1]) <= tol for p, q in zip(g[1:], w[1:]))
        for g, w in zip(got, want))
    m.check(name, ok, lambda: {'got': got[:12], 'want': want[:12], 'ctx': ctx() if callable(ctx) else ctx})


# --- cases --------------------------------------------------------------------------
def face_facts(m, rng, path):
    o, f = faces(path)
    ctx = lambda: path  # noqa: E731
    m.eq('face_names', (o.family_name, o.style_name), (f.name(16, 1), f.name(17, 2)), ctx)
    m.eq('face_measures', (o.units_per_em, o.ascender, o.descender, o.height, o.max_advance_width, o.num_glyphs),
         (f.units, f.ascender, f.descender, f.ascender - f.descender + f.line_gap, f.max_advance, f.glyphs), ctx)
    b = o.bbox
    m.eq('face_bbox', (b.x, b.y, b.x + b.width, b.y + b.height), f.bbox, ctx)
    post = f.table('post')
    pos, thick = struct.unpack('>hh', post[8:12])
    m.eq('face_underline', (o.underline_position, o.underline_thickness), (pos - thick // 2, thick), ctx)
    fixed = struct.unpack('>I', post[12:16])[0] != 0
    m.eq('face_flags', (o.is_scalable(), o.is_sfnt(), o.has_horizontal(), o.has_fixed_sizes(), o.has_color(),
                        o.is_cid_keyed(), o.has_kerning(), o.is_fixed_width(), o.has_vertical(),
                        o.has_multiple_masters(), o.is_tricky(), o.has_glyph_names()),
         (True, True, True, False, False, False, bool(f.kerning), fixed, 'vhea' in f.tables, 'fvar' in f.tables,
          False, struct.unpack('>I', post[:4])[0] != 0x30000), ctx)
    bold = struct.unpack('>H', f.table('OS/2')[62:64])[0]
    m.eq('style_flags', o.style_flags, (1 if bold & 0x201 else 0) | (2 if bold & 32 else 0), ctx)
    t = f.table('cmap')
    n = struct.unpack('>H', t[2:4])[0]
    want = []
    for k in range(n):
        p, e, off = struct.unpack('>HHI', t[4 + 8 * k:12 + 8 * k])
        if struct.unpack('>H', t[off:off + 2])[0] != 14:
            want.append((p, e))
    m.eq('charmaps', [(c.platform_id, c.encoding_id) for c in o.charmaps], want, ctx)
    cm = o.charmap
    m.check('charmap', (cm.platform_id, cm.encoding_id) in want and cm.encoding == 1970170211, ctx)
    m.eq('numbers', (o.num_charmaps, o.num_faces, o.num_fixed_sizes, o.available_sizes, o.face_index),
         (len(want), 1, 0, [], 0), ctx)
    m.state('face', os.path.basename(path))


def maps(m, rng, path):
    o, f = faces(path)
    pts = [rng.choice(list(f.cmap)) for _ in range(20)] + [rng.randrange(0x20, 0x3000) for _ in range(20)] \
        + [rng.randrange(0x10000, 0x110000) for _ in range(6)]
    for c in pts:
        want = f.cmap.get(c, 0)
        m.eq('char_index', o.get_char_index(c), want, lambda: (path, hex(c)))
        if not 0xd800 <= c < 0xe000:
            m.eq('char_index', o.get_char_index(chr(c)), want, lambda: (path, hex(c)))
    m.state('maps', os.path.basename(path), pts[0])


def kerning(m, rng, path):
    from svgpy.freetype import FreeType
    o, f = faces(path)
    if not f.kerning:
        return
    pairs = [rng.choice(list(f.kerning)) for _ in range(15)]
    pairs += [(rng.randrange(f.glyphs), rng.randrange(f.glyphs)) for _ in range(10)]
    for a, b in pairs:
        m.eq('kerning', o.get_kerning(a, b, FreeType.FT_KERNING_UNSCALED), (f.kerning.get((a, b), 0), 0),
             lambda: (path, a, b))
    n = rng.randint(8, 60)
    o.set_pixel_sizes(0, n)
    for a, b in pairs:
        want = f.kerning.get((a, b), 0) * n * 64 / f.units
        x, y = o.get_kerning(a, b, FreeType.FT_KERNING_UNFITTED)
        m.check('kerning_scaled', abs(x - want) <= 1 and y == 0, lambda: (path, a, b, n, x, want))
    m.state('kern', os.path.basename(path), pairs[0])


def a_glyph(rng, f):
    if rng.random() < .6:
        return f.cmap.get(ord(rng.choice(LETTERS)), 0)
    return rng.randrange(f.glyphs)


def raw(m, rng, path):
    """Unscaled glyphs."""
    from svgpy.freetype import FreeType
    o, f = faces(path)
    for _ in range(5):
        gid = a_glyph(rng, f)
        o.load_glyph(gid, FreeType.FT_LOAD_NO_SCALE)
        ctx = lambda: (path, gid)  # noqa: E731
        g, q = o.glyph, o.glyph.metrics
        m.eq('format', g.format, FreeType.FT_GLYPH_FORMAT_OUTLINE, ctx)
        m.eq('raw_advance', (q.hori_advance, o.get_advance(gid, FreeType.FT_LOAD_NO_SCALE)),
             (f.advance(gid),) * 2, ctx)
        m.eq('raw_advance', g.advance, (f.advance(gid), 0), ctx)
        want = f.outline(gid)
        out = g.outline
        pts, tags, ends = out.points, out.tags, out.contours
        m.eq('raw_counts', (len(pts), len(tags), len(ends)), (out.n_points, out.n_points, out.n_contours), ctx)
        if want is not None:
            got = contours_of(pts, tags, ends)
            dx = got[0][0][0] - want[0][0][0] if got and want else 0    # by the left side bearing
            m.check('raw_outline', [len(c) for c in got] == [len(c) for c in want] and abs(dx) <= 2 and all(
                abs(a[0] - dx - b[0]) <= 1 and abs(a[1] - b[1]) <= 1 and bool(a[2]) == bool(b[2])
                for c, d in zip(got, want) for a, b in zip(c, d)), lambda: (ctx(), got, want))
        if pts:
            xs, ys = [p[0] for p in pts], [p[1] for p in pts]
            c = out.get_cbox()
            m.eq('cbox', (c.x, c.y, c.width, c.height),
                 (min(xs), min(ys), max(xs) - min(xs), max(ys) - min(ys)), ctx)
            contours = contours_of(pts, tags, ends)
            segs = decompose(contours)
            same_segs(m, 'decompose', walk(out), segs, 1, ctx)
            sh, de = rng.choice([(0, 0), (1, 0), (2, 5), (0, -30), (3, 100)])
            scaled = [(s[0],) + tuple((x * 2 ** sh - de, y * 2 ** sh - de) for x, y in s[1:]) for s in segs]
            same_segs(m, 'decompose_shifted', walk(out, shift=sh, delta=de), scaled, 2 ** sh, lambda: (ctx(), sh, de))
            b = out.get_bbox()
            near(m, 'bbox', (b.x, b.y, b.x + b.width, b.y + b.height), tight(segs), 2, ctx)
            near(m, 'raw_metrics', (q.width, q.height, q.hori_bearing_x, q.hori_bearing_y),
                 (c.width, c.height, c.x, c.y + c.height), 1, ctx)
            a = area(segs)
            if abs(a) > 2000:
                m.eq('orientation', out.get_orientation(), 0 if a < 0 else 1, lambda: (ctx(), a))
            out.reverse()
            back = area(walk(out))
            m.check('reversed', abs(back + a) <= 2 + abs(a) * .01 and sorted(out.points) == sorted(pts),
                    lambda: (ctx(), a, back))
            if abs(a) > 2000:
                m.eq('reversed_orientation', out.get_orientation(), 1 if a < 0 else 0, ctx)
            m.state('glyph', os.path.basename(path), gid)
        else:
            m.eq('empty', (walk(out), q.width, q.height, g.outline.n_contours), ([], 0, 0, 0), ctx)
            m.state('empty', os.path.basename(path), gid)
    if m.current.endswith('/0'):
        m.sample({'font': os.path.basename(path), 'glyph': gid, 'points': len(pts)})


def a_matrix(rng, FTMatrix):
    """A matrix and its independent model ((xx, xy), (yx, yy)) built by a few steps."""
    o, w = FTMatrix(), ((1.0, 0.0), (0.0, 1.0))

    def mul(p, q):
        return tuple(tuple(sum(p[i][k] * q[k][j] for k in range(2)) for j in range(2)) for i in range(2))
    steps = []
    for _ in range(rng.randint(1, 4)):
        k = rng.choice(['rotate', 'scale', 'scale1', 'skew_x', 'skew_y', 'flip_x', 'flip_y', 'multiply', 'inverse',
                        'set', 'clear'])
        a, b = rng.uniform(-80, 80), rng.uniform(.3, 2) * rng.choice([1, 1, -1])
        before = o.tolist()
        inplace = rng.random() < .5
        if k == 'rotate':
            t = math.radians(a)
            # y grows downwards: a positive angle is clockwise on screen
            q = ((math.cos(t), math.sin(t)), (-math.sin(t), math.cos(t)))
            n = o.rotate_self(a) if inplace else o.rotate(a)
        elif k == 'scale':
            c = rng.uniform(.3, 2)
            q = ((b, 0), (0, c))
            n = o.scale_self(b, c) if inplace else o.scale(b, c)
        elif k == 'scale1':
            q = ((b, 0), (0, b))
            n = o.scale_self(b) if inplace else o.scale(b)
        elif k == 'skew_x':
            a *= .7
            q = ((1, -math.tan(math.radians(a))), (0, 1))
            n = o.skew_x_self(a) if inplace else o.skew_x(a)
        elif k == 'skew_y':
            a *= .7
            q = ((1, 0), (-math.tan(math.radians(a)), 1))
            n = o.skew_y_self(a) if inplace else o.skew_y(a)
        elif k in ('flip_x', 'flip_y'):
            q = ((-1, 0), (0, 1)) if k == 'flip_x' else ((1, 0), (0, -1))
            n = getattr(o, k)()
            inplace = False
        elif k == 'multiply':
            v = [rng.uniform(-2, 2) for _ in range(4)]
            q = ((v[0], v[1]), (v[2], v[3]))
            other = FTMatrix.from_float_array(v)
            how = rng.randrange(4)
            if how == 0:
                n = o.multiply(other)
            elif how == 1:
                n = o.multiply_self(other)
            elif how == 2:
                n = o * other
            else:
                n = o
                n *= other
            inplace = how in (1, 3)
        elif k == 'inverse':
            d = w[0][0] * w[1][1] - w[0][1] * w[1][0]
            if abs(d) < .05:
                continue
            q = None
            w2 = ((w[1][1] / d, -w[0][1] / d), (-w[1][0] / d, w[0][0] / d))
            n = o.invert_self() if inplace else o.inverse()
        elif k == 'set':
            q = None
            v = [rng.uniform(-2, 2) for _ in range(4)]
            w2 = ((v[0], v[1]), (v[2], v[3]))
            if rng.random() < .5:
                o.xx, o.xy, o.yx, o.yy = v
            else:
                o.a, o.b, o.c, o.d = v
            n, inplace = o, True
        else:
            q = None
            w2 = ((1.0, 0.0), (0.0, 1.0))
            n, inplace = o.clear(), True
        steps.append(k)
        if not inplace:
            if o.tolist() != before:
                steps.append('operand changed')
                return n, w, steps, False
        o = n
        w = mul(w, q) if q is not None else w2
        if max(abs(v) for r in w for v in r) > 30:
            break
    return o, w, steps, True


def matrix(m, rng, path):
    """Matrix algebra, and its effect on outlines."""
    from svgpy.freetype import FreeType, FTMatrix
    from svgpy.path import PathParser
    from svgpy.geometry.matrix import DOMMatrix
    o, f = faces(path)
    mat, w, steps, intact = a_matrix(rng, FTMatrix)
    ctx = lambda: (steps, w, mat.tolist())  # noqa: E731
    m.check('matrix_operand_kept', intact, ctx)
    flat = [w[0][0], w[0][1], w[1][0], w[1][1]]
    near(m, 'matrix', [mat.xx, mat.xy, mat.yx, mat.yy], flat, 1e-9 * (1 + max(map(abs, flat))) * 50, ctx)
    m.eq('matrix_list', list(mat.tolist()), [mat.a, mat.b, mat.c, mat.d], ctx)
    m.eq('matrix_list', list(mat.to_float_array()), [mat.xx, mat.xy, mat.yx, mat.yy], ctx)
    c = mat.ft_matrix
    near(m, 'ft_matrix', [c.xx / 65536, c.xy / 65536, c.yx / 65536, c.yy / 65536], flat, 2.0 / 65536, ctx)
    again = FTMatrix(c)
    near(m, 'ft_matrix_back', again.tolist(), flat, 2.0 / 65536, ctx)
    m.check('matrix_equality', again == FTMatrix.from_float_array(again.tolist()), ctx)
    gid = f.cmap.get(ord(rng.choice(LETTERS)), 0)
    o.load_glyph(gid, FreeType.FT_LOAD_NO_SCALE)
    out = o.glyph.outline
    pts = out.points
    tx, ty = rng.randint(-3000, 3000), rng.randint(-3000, 3000)
    first = rng.random() < .5
    if first:
        out.translate(tx, ty)
        out.transform(mat)
        want = [(w[0][0] * (x + tx) + w[0][1] * (y + ty), w[1][0] * (x + tx) + w[1][1] * (y + ty)) for x, y in pts]
    else:
        out.transform(mat)
        out.translate(tx, ty)
        want = [(w[0][0] * x + w[0][1] * y + tx, w[1][0] * x + w[1][1] * y + ty) for x, y in pts]
    got = out.points
    m.check('outline_transform', all(abs(p[0] - q[0]) <= 2 and abs(p[1] - q[1]) <= 2 for p, q in zip(got, want)),
            lambda: (ctx(), tx, ty, first, got[:5], want[:5]))
    # glyph paths: y downwards, pixels, then the matrix
    n = rng.randint(8, 80)
    o.set_pixel_sizes(0, n)

    def path_of(*args):
        o.load_glyph(gid, FreeType.FT_LOAD_NO_HINTING)
        return PathParser.from_glyph(o, *args)
    o.load_glyph(gid, FreeType.FT_LOAD_NO_HINTING)
    segs = decompose(contours_of(o.glyph.outline.points, o.glyph.outline.tags, o.glyph.outline.contours))
    base = [(s[0], [v for x, y in s[1:] for v in (x / 64, -y / 64)]) for s in segs]

    def same(name, got, want, tol, *ctx):
        m.check(name, [s.type for s in got] == [s[0] for s in want] and all(
            abs(a - b) <= tol for s, t in zip(got, want) for a, b in zip(s.values, t[1])),
            lambda: (path, gid, n, ctx, [(s.type, s.values) for s in got][:6], want[:6]))
    same('glyph_path', path_of(), base, 1.01 / 64)
    t, k = math.radians(rng.uniform(-180, 180)), rng.uniform(.3, 2)
    v = [k * math.cos(t), k * math.sin(t), -k * math.sin(t), k * math.cos(t), 0.0, 0.0]
    dm = DOMMatrix(v)
    want = [(s, [k for x, y in zip(q[::2], q[1::2]) for k in (v[0] * x + v[2] * y, v[1] * x + v[3] * y)])
            for s, q in base]
    same('glyph_path_matrix', path_of(dm), want, 3.2 / 64, v)
    m.eq('matrix_kept', list(dm.to_float_array() if len(dm.to_float_array()) == 6 else dm.tolist()), v, None)
    m.state('matrix', tuple(steps), first)


def sized(m, rng, path):
    """Scaled glyphs and pixels."""
    from svgpy.freetype import FreeType
    o, f = faces(path)
    n = rng.randint(8, 90)
    how = rng.randrange(4)
    if how == 0:
        o.set_pixel_sizes(0, n)
    elif how == 1:
        o.set_char_size(0, n * 64, 72, 72)
    elif how == 2:
        o.request_size(FreeType.FT_SIZE_REQUEST_TYPE_NOMINAL, 0, n * 64, 0, 72)
    else:
        o.set_char_size(0, n * 32, 144, 144)
    s = o.size.metrics
    ctx = lambda: (path, n, how)  # noqa: E731
    m.eq('ppem', (s.x_ppem, s.y_ppem), (n, n), ctx)
    near(m, 'scale', (s.x_scale / 65536, s.y_scale / 65536), (n * 64 / f.units,) * 2, 2.0 / 65536, ctx)
    want = [f.ascender * n * 64 / f.units, f.descender * n * 64 / f.units,
            (f.ascender - f.descender + f.line_gap) * n * 64 / f.units, f.max_advance * n * 64 / f.units]
    near(m, 'size_metrics', (s.ascender, s.descender, s.height, s.max_advance), want, 65, ctx)
    for c in rng.sample(LETTERS, 3):
        gid = f.cmap.get(ord(c), 0)
        o.load_char(c, FreeType.FT_LOAD_NO_HINTING)
        g, q = o.glyph, o.glyph.metrics
        ctx = lambda: (path, n, c)  # noqa: E731
        k = n * 64 / f.units
        near(m, 'scaled_advance', [g.linear_hori_advance / 65536, q.hori_advance / 64],
             [f.advance(gid) * k / 64] * 2, .55, ctx)
        contours = f.outline(gid)
        out = g.outline
        if not contours:
            continue
        wantp = [(x * k, y * k) for d in contours for x, y, _ in d]
        dx = out.points[0][0] - wantp[0][0] if out.n_points else 0
        m.check('scaled_outline', len(wantp) == out.n_points and abs(dx) <= 5 and all(
            abs(a[0] - dx - b[0]) <= 2 and abs(a[1] - b[1]) <= 2 for a, b in zip(out.points, wantp)),
            lambda: (ctx(), out.points[:5], wantp[:5]))
        segs = decompose(contours_of(out.points, out.tags, out.contours))
        box = tight(segs)
        pts = out.points
        cbox = [min(p[0] for p in pts), min(p[1] for p in pts), max(p[0] for p in pts), max(p[1] for p in pts)]
        target = abs(area(segs)) / 4096
        o.load_char(c, FreeType.FT_LOAD_NO_HINTING | FreeType.FT_LOAD_RENDER) if rng.random() < .5 else \
            g.render_glyph(FreeType.FT_RENDER_MODE_NORMAL)
        g = o.glyph
        b = g.bitmap
        m.eq('bitmap_format', (g.format, b.pixel_mode, b.num_grays), (FreeType.FT_GLYPH_FORMAT_BITMAP,
                                                                    FreeType.FT_PIXEL_MODE_GRAY, 256), ctx)
        buf = b.buffer
        m.check('bitmap_size', len(buf) == b.rows * abs(b.pitch) and abs(b.pitch) >= b.width, ctx)
        m.check('bitmap_place', all(lo - 1 <= v <= hi + 1 for v, lo, hi in (
            (g.bitmap_left, math.floor(cbox[0] / 64), math.floor(box[0] / 64)),
            (g.bitmap_top, math.ceil(box[3] / 64), math.ceil(cbox[3] / 64)),
            (g.bitmap_left + b.width, math.ceil(box[2] / 64), math.ceil(cbox[2] / 64)),
            (g.bitmap_top - b.rows, math.floor(cbox[1] / 64), math.floor(box[1] / 64)))),
            lambda: (ctx(), g.bitmap_left, g.bitmap_top, b.width, b.rows, box, cbox))
        ink = sum(buf) / 255
        per = sum(1 for v in buf if 0 < v < 255)
        m.check('bitmap_ink', abs(ink - target) <= .02 * target + .5 + .004 * per, lambda: (ctx(), ink, target, per))
        # the centre of the ink is the centre of the outline's box, roughly; a mirrored buffer is caught by rows
        rows = [sum(buf[r * b.pitch:r * b.pitch + b.width]) / 255 for r in range(b.rows)]
        want_rows = row_ink(segs, g.bitmap_top, b.rows)
        bad = [(r, x, y) for r, (x, y) in enumerate(zip(rows, want_rows)) if abs(x - y) > .35 + .03 * y + b.width / 20]
        m.check('bitmap_rows', not bad, lambda: (ctx(), bad[:4]))
        m.state('pixels', os.path.basename(path), n, c)


def row_ink(segs, top, rows):
    """The ink of each pixel row: area of the outline between its two edges (by many thin slices)."""
    lines = []
    for s in segs:
        if s[0] == 'M':
            cur = s[1]
        elif s[0] == 'L':
            lines.append((cur, s[1]))
            cur = s[1]
        else:
            p = cur
            for k in range(1, 9):
                t = k / 8
                q = tuple((1 - t) ** 2 * cur[j] + 2 * t * (1 - t) * s[1][j] + t * t * s[2][j] for j in (0, 1))
                lines.append((p, q))
                p = q
            cur = s[2]
    out = []
    n = 24
    for r in range(rows):
        total = 0
        for k in range(n):
            y = (top - r - (k + .5) / n) * 64 + 1e-7
            xs = []
            for (x1, y1), (x2, y2) in lines:
                if (y1 <= y) != (y2 <= y):
                    xs.append((x1 + (y - y1) * (x2 - x1) / (y2 - y1), 1 if y2 > y1 else -1))
            xs.sort()
            wind = 0
            for (x, d), (nx, _) in zip(xs, xs[1:]):
                wind += d
                if wind:
                    total += nx - x
        out.append(total / 64 / n)
    return out


def errors(m, rng, path):
    """What cannot be done is refused, and the face stays usable."""
    from svgpy.freetype import FTFace, ft_tag_to_string, ft_tag
    o, f = faces(path)
    m.raises('bad_file', RuntimeError, lambda: FTFace.new_face('/nonexistent/%d.ttf' % rng.randrange(9)))
    junk = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 12, 400])))
    m.raises('bad_data', RuntimeError, lambda: FTFace.new_memory_face(junk))
    cut = f.data[:rng.randrange(len(f.data) // 2)]
    try:
        c = FTFace.new_memory_face(cut)
        c.num_glyphs
        for g in range(0, c.num_glyphs, 997):
            try:
                c.load_glyph(g, 1)
                c.glyph.outline.points
            except RuntimeError:
                m.counts['cut_refused'] += 1
    except RuntimeError:
        m.counts['cut_refused'] += 1
    m.raises('bad_glyph', RuntimeError, lambda: o.load_glyph(f.glyphs + rng.randrange(1000), 1))
    m.raises('bad_strike', RuntimeError, lambda: o.select_size(0))
    m.raises('bad_index', RuntimeError, lambda: FTFace.new_face(path, 3))
    m.eq('still_usable', o.get_char_index('a'), f.cmap[97], path)
    t = ''.join(rng.choice('abcdKERNliga 012') for _ in range(4))
    m.eq('tag', ft_tag_to_string(ft_tag(*t)), t)
    mem = FTFace.new_memory_face(f.data)
    m.eq('memory_face', (mem.family_name, mem.num_glyphs, mem.get_char_index('b')),
         (o.family_name, o.num_glyphs, o.get_char_index('b')), path)
    m.state('errors', os.path.basename(path), len(cut))


KINDS = [(face_facts, 3), (maps, 4), (kerning, 3), (raw, 10), (matrix, 12), (sized, 8), (errors, 1)]


def case(m, rng, i):
    f = rng.choices([k for k, _ in KINDS], [w for _, w in KINDS])[0]
    path = rng.choice(FONTS)
    m.event(f.__name__, path)
    if f in (maps, kerning) and rng.random() < .7 and FACES:
        path = rng.choice(sorted(FACES))
    f(m, rng, path)


def all_faces(m, rng):
    for path in FONTS:
        face_facts(m, rng, path)


SPEC = vf.Spec(
    'N02', case, quick=8000, thorough=400000, fixed=[all_faces],
    rule='a state is a face, a glyph of a face, a rendered glyph at a size, or a sequence of matrix steps',
    required=['face_names', 'face_measures', 'face_bbox', 'face_flags', 'style_flags', 'charmaps', 'char_index',
              'kerning', 'kerning_scaled', 'raw_advance', 'raw_outline', 'decompose', 'decompose_shifted', 'bbox',
              'cbox', 'orientation', 'reversed', 'empty', 'matrix', 'ft_matrix', 'matrix_operand_kept',
              'outline_transform', 'glyph_path', 'glyph_path_matrix', 'ppem', 'scale', 'size_metrics',
              'scaled_outline', 'bitmap_place', 'bitmap_ink', 'bitmap_rows', 'bad_file', 'bad_data', 'memory_face'],
    anchors=['svgpy/freetype.py', 'svgpy/path.py'],
    assumptions=['TrueType outlines only: the sandbox has no CFF, bitmap or colour fonts'])

if __name__ == '__main__':
    vf.main(SPEC)
