"""T02: placement and measures of text."""
import math
import os

import ttf
import vf
from svgpy import SVGParser, Window
from svgpy.base import SVGPathDataSettings
from svgpy.window import SVGDOMImplementation

NS = 'http://www.w3.org/2000/svg'
DIR = '/usr/share/fonts/truetype/dejavu'
FACES = {
    ('DejaVu Sans', 'normal', 'normal'): 'DejaVuSans.ttf',
    ('DejaVu Sans', 'bold', 'normal'): 'DejaVuSans-Bold.ttf',
    ('DejaVu Sans', 'normal', 'oblique'): 'DejaVuSans-Oblique.ttf',
    ('DejaVu Serif', 'normal', 'normal'): 'DejaVuSerif.ttf',
    ('DejaVu Serif', 'bold', 'normal'): 'DejaVuSerif-Bold.ttf',
    ('DejaVu Sans Mono', 'normal', 'normal'): 'DejaVuSansMono.ttf',
}
LETTERS = 'abegjmoqrtxyABEGIJMOQRXY0358'
HEBREW = '\u05d0\u05d1\u05d2\u05d3\u05d4'
WIN = []
FONTS = {}
CELLS = {}


def font(face):
    if face not in FONTS:
        FONTS[face] = ttf.Font(os.path.join(DIR, FACES[face]))
    return FONTS[face]


def load(body, face, size, extra=''):
    if not WIN:
        WIN.append(Window(SVGDOMImplementation()))
    w = WIN[0]
    src = ('<svg xmlns="%s" width="1000" height="1000" font-family="%s" font-weight="%s" font-style="%s" font-size="%s" '
           'style="font-kerning: none; font-variant-ligatures: none%s">%s</svg>' % ((NS,) + face + (vf_num(size), extra, body)))
    root = SVGParser().fromstring(src)
    w.document.replace_child(root, w.document.document_element)
    return w.document, src


def vf_num(v):
    return ('%.4f' % v).rstrip('0').rstrip('.') if isinstance(v, float) else str(v)


def flat(path):
    return [(s.type, tuple(s.values)) for s in path]


def cell(m, face, size, c):
    """The glyph at the origin: its path, its advance, the vertical extent of its cell."""
    key = face, size, c
    if key not in CELLS:
        doc, src = load('<text id="t">%s</text>' % ('a&#160;' if c == ' ' else c), face, size)
        if c == ' ':
            doc, src = load('<text id="t" style="white-space: pre"> </text>', face, size)
        t = doc.get_element_by_id('t')
        path = flat(t.get_path_data())
        adv = t.get_computed_text_length()
        b = t.get_bbox()
        f = font(face)
        gid = f.cmap.get(ord(c), 0)
        want = f.advance(gid) * size / f.units
        m.check('advance', abs(adv - want) <= 0.51 / 64 + 1e-6 * want, lambda: (c, face, size, adv, want))
        outline = f.outline(gid)
        if outline is not None:
            xs = [p[0] * size / f.units for ct in outline for p in ct]
            ys = [-p[1] * size / f.units for ct in outline for p in ct]
            px = [v for _, vs in path for v in vs[0::2]]
            py = [v for _, vs in path for v in vs[1::2]]
            m.eq('glyph', bool(px), bool(xs), lambda: (c, face, size, 'drawn or not'))
            if xs:
                tol = 1.3 + size / 60.0
                near = [abs(min(px) - min(xs)), abs(max(px) - max(xs)), abs(min(py) - min(ys)), abs(max(py) - max(ys))]
                m.check('glyph', max(near) <= tol, lambda: (c, face, size, near, path[:3]))
                m.eq('glyph', sum(1 for k, _ in path if k == 'M'), len(outline), lambda: (c, face, size, 'contours'))
        m.check('cell', abs(b.x) < 1e-9 and abs(b.width - adv) < 1e-9, lambda: (c, face, size, b.x, b.width, adv))
        CELLS[key] = path, adv, b.y, b.height
    return CELLS[key]


class N(object):
    def __init__(self, kind):
        self.kind = kind
        self.kids = []
        self.lists = {}
        self.id = None
        self.data = ''


def numbers(rng, n, key):
    if key == 'rotate':
        return [rng.choice([0, 90, -90, 30, 45, 180, 10, -30.5]) for _ in range(n)]
    if key in ('dx', 'dy'):
        return [rng.choice([0, 1, -1, 5, -3.5, 12.25, 0.5]) for _ in range(n)]
    return [rng.choice([0, 10, 100, -20, 33.5, 250.25, 7]) for _ in range(n)]


OTHER = '\u00e9\u03a9\u0416\u2192\u20ac\U0001d538\U0001f600\U00010300'     # two, three and four bytes in UTF-8


def word(rng, face=None):
    n = rng.randint(1, 5)
    other = [c for c in OTHER if ord(c) in font(face).cmap] if face else LETTERS
    return ''.join(rng.choice(other if rng.random() < 0.12 else LETTERS) for _ in range(n))


def tree(rng, kind, depth, budget, ids, face):
    n = N(kind)
    n.id = 'e%d' % len(ids)
    ids.append(n)
    for key in ('x', 'y', 'dx', 'dy'):
        if rng.random() < (0.5 if kind == 'text' else 0.3):
            n.lists[key] = numbers(rng, rng.choice([1, 1, 2, 3, 5]), key)
    for k in range(rng.randint(1, 3)):
        if rng.random() < 0.6 or depth >= 2 or not budget[0]:
            c = N('chars')
            c.data = word(rng, face) + (' ' + word(rng, face) if rng.random() < 0.3 else '')
            n.kids.append(c)
        else:
            budget[0] -= 1
            n.kids.append(tree(rng, 'tspan', depth + 1, budget, ids, face))
    return n


def attr(rng, vals):
    sep = rng.choice([' ', ',', ', ', '  ', ' , '])
    text = sep.join(vf_num(v) for v in vals)
    return rng.choice(['', '', '', ' ']) + text + rng.choice(['', '', '', ' '])


def markup(rng, n):
    if n.kind == 'chars':
        return n.data
    return '<%s id="%s"%s>%s</%s>' % (n.kind, n.id, ''.join(' %s="%s"' % (k, attr(rng, v)) for k, v in n.lists.items()),
                                      ''.join(markup(rng, k) for k in n.kids), n.kind)


def stream(n, chain=()):
    chain = chain + (n,)
    out = []
    for k in n.kids:
        if k.kind == 'chars':
            out += [(c, chain) for c in k.data]
        else:
            out += stream(k, chain)
    return out


def place(m, chars, face, size):
    """The model: position of every character, from the nearest list that has a value for it."""
    seen = {}
    x = y = 0.0
    out = []
    for c, chain in chars:
        v = {}
        for n in chain:
            k = seen.get(n, 0)
            for key, vals in n.lists.items():
                if key == 'rotate':
                    v[key] = vals[min(k, len(vals) - 1)]
                elif k < len(vals):
                    v[key] = vals[k]
            seen[n] = k + 1
        x = v.get('x', x) + v.get('dx', 0)
        y = v.get('y', y) + v.get('dy', 0)
        path, adv, top, height = cell(m, face, size, c)
        out.append((c, chain, x, y, v.get('rotate', 0), path, adv, top, height))
        x += adv
    return out


def turned(px, py, x, y, a):
    if a == 0:
        return x + px, y + py
    s, c = math.sin(math.radians(a)), math.cos(math.radians(a))
    return x + c * px - s * py, y + s * px + c * py


def box(items):
    xs, ys = [], []
    for _, _, x, y, a, _, adv, top, height in items:
        for px, py in ((0, top), (adv, top), (0, top + height), (adv, top + height)):
            q = turned(px, py, x, y, a)
            xs.append(q[0])
            ys.append(q[1])
    return min(xs), min(ys), max(xs), max(ys)


def layout(m, rng):
    face = rng.choice(list(FACES))
    size = rng.choice([20, 33.5, 64])
    ids = []
    root = tree(rng, 'text', 0, [3], ids, face)
    if rng.random() < 0.5:
        rng.choice(ids).lists['rotate'] = numbers(rng, rng.choice([1, 2, 3]), 'rotate')
    chars = stream(root)
    for c in sorted(set(c for c, _ in chars)):
        cell(m, face, size, c)
    doc, src = load(markup(rng, root), face, size)
    m.event(src)
    placed = place(m, chars, face, size)
    for n in ids:
        e = doc.get_element_by_id(n.id)
        mine = [p for p in placed if n in p[1]]
        ctx = lambda: (src, n.id)
        m.eq('chars', e.get_chars() or '', ''.join(p[0] for p in mine), ctx)
        if not mine:
            continue
        total = sum(p[6] for p in mine)
        got = e.get_computed_text_length()
        m.check('length', abs(got - total) < 1e-6, lambda: (got, total, ctx()))
        a = rng.randrange(len(mine))
        k = rng.randint(0, len(mine) - a)
        sub = e.get_sub_string_length(a, k)
        m.check('part', abs(sub - sum(p[6] for p in mine[a:a + k])) < 1e-6, lambda: (a, k, sub, ctx()))
        sub = rng.choice([lambda: e.get_sub_string_length(a), lambda: e.get_sub_string_length(a, -1)])()
        m.check('part', abs(sub - sum(p[6] for p in mine[a:])) < 1e-6, lambda: (a, 'rest', sub, ctx()))
        b = e.get_bbox()
        w = box(mine)
        m.check('bbox', max(abs(b.left - w[0]), abs(b.top - w[1]), abs(b.right - w[2]), abs(b.bottom - w[3])) <= 1e-6 * (1 + abs(w[0]) + abs(w[2]) + abs(w[1]) + abs(w[3])),
                lambda: ((b.left, b.top, b.right, b.bottom), w, ctx()))
        path = flat(e.get_path_data())
        want = [(t, vs, p) for p in mine for t, vs in p[5]]
        m.eq('shape', ''.join(t for t, _ in path), ''.join(t for t, _, _ in want), ctx)
        for (t, vs), (_, ws, p) in zip(path, want):
            for q in range(0, len(ws), 2):
                z = turned(ws[q], ws[q + 1], p[2], p[3], p[4])
                tol = 0.05 + 1e-4 * (abs(z[0]) + abs(z[1]))
                if abs(vs[q] - z[0]) > tol or abs(vs[q + 1] - z[1]) > tol:
                    m.fail('path', (t, vs, z, p[:5], ctx()))
        m.saw('path', len(path))
        normal(m, e, path, ctx)
        m.state(n.kind, len(mine), sorted(n.lists), face, size)
    m.saw('nested', len(ids) > 1)
    m.sample({'source': src, 'places': [(p[0], round(p[2], 3), round(p[3], 3), p[4]) for p in placed[:8]]})


def normal(m, e, path, ctx):
    """The outlines in M, L, C and Z are the same curves."""
    st = SVGPathDataSettings()
    m.eq('normalized', flat(e.get_path_data(st)), path, ctx)
    st.normalize = True
    got = flat(e.get_path_data(st))
    m.check('normalized', len(got) == len(path) and all(k in 'MLCZ' for k, _ in got), lambda: (got[:5], path[:5], ctx()))
    cur = start = None
    for (k, v), (t, w) in zip(got, path):
        want = w
        if t == 'Q' and k == 'C':
            want = (cur[0] + 2 * (w[0] - cur[0]) / 3, cur[1] + 2 * (w[1] - cur[1]) / 3,
                    w[2] + 2 * (w[0] - w[2]) / 3, w[3] + 2 * (w[1] - w[3]) / 3) + w[2:]
        elif t != k:
            m.fail('normalized', (t, k, ctx()))
        if len(v) != len(want) or any(abs(a - b) > 1e-6 * (1 + abs(b)) for a, b in zip(v, want)):
            m.fail('normalized', (t, w, k, v, want, ctx()))
        if t == 'Z':
            cur = start
        else:
            cur = w[-2:]
            if t == 'M':
                start = cur


def visual(text, rtl):
    """The characters from left to right: words of one direction with the spaces between them are a run, and a
    space between words of different directions has the direction of the text."""
    kinds = ['R' if c in HEBREW else 'L' if c != ' ' else None for c in text]
    base = 'R' if rtl else 'L'
    for k, v in enumerate(kinds):
        if v is None:
            p = next((x for x in reversed(kinds[:k]) if x), base)
            n = next((x for x in kinds[k + 1:] if x), base)
            kinds[k] = p if p == n else base
    runs = []
    for k, v in enumerate(kinds):
        if not runs or runs[-1][0] != v:
            runs.append((v, []))
        runs[-1][1].append(k)
    out = []
    for v, ks in (reversed(runs) if rtl else runs):
        out += reversed(ks) if v == 'R' else ks
    return out


def bidi(m, rng):
    """Words of both directions: the cells of the line have no gap and are in visual order, and the parts are
    measured in logical order."""
    face = ('DejaVu Sans', 'normal', 'normal')
    size = rng.choice([20, 64])
    words = [(''.join(rng.choice(HEBREW) for _ in range(rng.randint(1, 4))) if rng.random() < 0.5 else word(rng).strip('0358') or 'a')
             for _ in range(rng.randint(1, 5))]
    words = [''.join(c for c in w if not c.isdigit()) or 'a' for w in words]
    text = ' '.join(words)
    rtl = rng.random() < 0.4
    total = sum(cell(m, face, size, c)[1] for c in text)
    x = rng.choice([0, 50, None])
    y = rng.choice([0, 30, None])
    dx = rng.choice([None, None, 7.5])
    at = ''.join(' %s="%s"' % (k, v) for k, v in (('x', x), ('y', y), ('dx', dx)) if v is not None)
    doc, src = load('<text id="t"%s%s>%s</text>' % (at, ' direction="rtl"' if rtl else '', text), face, size)
    t = doc.get_element_by_id('t')
    m.event(src)
    got = t.get_computed_text_length()
    m.check('bidi', abs(got - total) < 1e-6, lambda: (got, total, src))
    path = flat(t.get_path_data())
    left = (x or 0) + (dx or 0) - (total if rtl else 0)
    pen = left
    want = []
    for k in visual(text, rtl):
        outline, adv = cell(m, face, size, text[k])[:2]
        want += [(v[0] + pen, v[1] + (y or 0)) for q, v in outline if q == 'M']
        pen += adv
    have = sorted(v for q, v in path if q == 'M')
    want.sort()
    m.eq('bidi', len(have), len(want), lambda: ('contours', src))
    free = list(have)
    for v in want:
        near = min(free, key=lambda z: math.hypot(z[0] - v[0], z[1] - v[1]))
        m.check('bidi', math.hypot(near[0] - v[0], near[1] - v[1]) < 0.05, lambda: ('glyph', v, near, src))
        free.remove(near)
    b = t.get_bbox()
    m.check('bidi', abs(b.x - left) < 1e-6 and abs(b.width - total) < 1e-6, lambda: ('bbox', (b.x, b.width), left, total, src))
    for _ in range(4):
        k = rng.randrange(len(text))
        n = rng.randint(1, 4)
        got = t.get_sub_string_length(k, n)
        part = sum(cell(m, face, size, c)[1] for c in text[k:k + n])
        m.check('bidi', abs(got - part) < 1e-6, lambda: ('part', k, n, got, part, src))
    m.state('bidi', rtl, len(words), x, dx, tuple(w[0] in HEBREW for w in words))


def whole(m, rng):
    """Kerning and ligatures on: the text moves as one, twice the same."""
    face = rng.choice(list(FACES))
    size = rng.choice([16, 20, 33.5, 64])
    text = ' '.join(''.join(rng.choice('AVToWYfil.,' + LETTERS) for _ in range(rng.randint(1, 6))) for _ in range(rng.randint(1, 3)))
    x, y = rng.choice([10, 120.5]), rng.choice([7, 40])
    doc, src = load('<text id="t">%s</text><text id="u" x="%s" y="%s">%s</text>' % (text, x, y, text), face, size, '; font-kerning: auto; font-variant-ligatures: normal')
    t, u = doc.get_element_by_id('t'), doc.get_element_by_id('u')
    a, b = t.get_bbox(), u.get_bbox()
    m.event(src)
    m.check('moved', abs(b.x - a.x - x) < 1e-6 and abs(b.y - a.y - y) < 1e-6 and abs(b.width - a.width) < 1e-6 and abs(b.height - a.height) < 1e-6,
            lambda: (src, (a.x, a.y, a.width), (b.x, b.y, b.width)))
    m.check('moved', abs(t.get_computed_text_length() - a.width) < 1e-6, lambda: (src, t.get_computed_text_length(), a.width))
    p, q = flat(t.get_path_data()), flat(u.get_path_data())
    m.eq('moved', [k for k, _ in p], [k for k, _ in q], src)
    for (k, v), (_, w) in zip(p, q):
        for z in range(0, len(v), 2):
            if abs(v[z] + x - w[z]) > 0.05 or abs(v[z + 1] + y - w[z + 1]) > 0.05:
                m.fail('moved', (src, k, v, w))
    m.eq('again', flat(t.get_path_data()), p, src)
    c = t.get_bbox()
    m.eq('again', (c.x, c.y, c.width, c.height), (a.x, a.y, a.width, a.height), src)
    m.state('whole', len(text), face, size)


def marks(m, rng):
    """A mark above a tall letter is higher than above a low one, as much as the letters differ, and advances nothing."""
    face = ('DejaVu Sans', rng.choice(['normal', 'bold']), 'normal')
    size = rng.choice([20, 64])
    low, tall = rng.choice('xqv'), rng.choice('XQBV')
    mark = rng.choice('\u0301\u0300\u0302\u0306')
    tops = []
    for c in (low, tall):
        doc, src = load('<text id="t">%s</text><text id="u">%s</text>' % (c, c + mark), face, size)
        t, u = doc.get_element_by_id('t'), doc.get_element_by_id('u')
        p, q = flat(t.get_path_data()), flat(u.get_path_data())
        m.eq('mark', q[:len(p)], p, src)
        m.check('mark', len(q) > len(p), src)
        m.check('mark', abs(t.get_computed_text_length() - u.get_computed_text_length()) < 1e-6, src)
        m.eq('mark', u.get_number_of_chars(), 2, src)
        base = min(y for _, v in p for y in v[1::2])
        ys = [y for _, v in q[len(p):] for y in v[1::2]]
        xs = [x for _, v in q[len(p):] for x in v[0::2]]
        m.check('mark', max(ys) <= base + 0.02 * size, lambda: ('below the top of the letter', max(ys), base, src))
        m.check('mark', 0 <= sum(xs) / len(xs) <= t.get_computed_text_length(), lambda: ('beside the letter', xs, src))
        tops.append((base, min(ys)))
    rise = tops[0][0] - tops[1][0]
    m.check('mark', abs((tops[0][1] - tops[1][1]) - rise) <= 0.1 * size, lambda: (tops, low, tall, mark, face, size))
    m.state('mark', low, tall, mark, size)


def ligature(m, rng):
    """A ligature stays whole; what shifts its later characters shifts what follows."""
    face = ('DejaVu Sans', 'normal', 'normal')
    size = rng.choice([20, 64])
    pair = rng.choice(['fi', 'fl'])
    lead, tail = ''.join(rng.choice('aegmo') for _ in range(rng.randint(0, 3))), rng.choice('aegmo') + rng.choice(['', 'x'])
    text = lead + pair + tail
    n = len(text)
    dx = [rng.choice([0, 1, -2, 5.5]) for _ in range(rng.randint(0, n))]
    dy = [rng.choice([0, 1, -2, 5.5]) for _ in range(rng.randint(0, n))]
    at = ''.join(' %s="%s"' % (k, ' '.join(vf_num(x) for x in v)) for k, v in (('dx', dx), ('dy', dy)) if v)
    body = '<text id="t">%s</text><text id="u"%s>%s</text>' % (text, at, text)
    doc, src = load(body, face, size, '; font-variant-ligatures: normal')
    t, u = doc.get_element_by_id('t'), doc.get_element_by_id('u')
    p, q = flat(t.get_path_data()), flat(u.get_path_data())
    m.eq('ligature', [k for k, _ in p], [k for k, _ in q], src)
    f = font(face)
    counts = [len([1 for k, _ in cell(m, face, size, c)[0]]) for c in lead]
    lig = f.cmap.get({'fi': 0xfb01, 'fl': 0xfb02}[pair])
    shift = lambda v, k: sum(v[:k + 1])
    # contours, in the order of the characters
    pos = 0
    for k, c in enumerate(lead):
        part = slice(pos, pos + counts[k])
        moved(m, p[part], q[part], shift(dx, k), shift(dy, k), src)
        pos += counts[k]
    rest = [len(cell(m, face, size, c)[0]) for c in tail]
    mid = slice(pos, len(p) - sum(rest))
    m.eq('ligature', sum(1 for k, _ in p[mid] if k == 'M'), len(f.outline(lig)), lambda: ('not a ligature', src))
    moved(m, p[mid], q[mid], shift(dx, len(lead)), shift(dy, len(lead)), src)
    pos = mid.stop
    for k in range(len(tail)):
        part = slice(pos, pos + rest[k])
        moved(m, p[part], q[part], shift(dx, len(lead) + 2 + k), shift(dy, len(lead) + 2 + k), src)
        pos += rest[k]
    m.state('ligature', pair, len(lead), len(dx), len(dy))


def moved(m, p, q, x, y, src):
    for (k, v), (_, w) in zip(p, q):
        for z in range(0, len(v), 2):
            if abs(v[z] + x - w[z]) > 0.05 or abs(v[z + 1] + y - w[z + 1]) > 0.05:
                m.fail('ligature', (src, k, v, w, x, y))


def case(m, rng, i):
    k = rng.random()
    if k < 0.06:
        return marks(m, rng)
    if k < 0.12:
        return ligature(m, rng)
    k = rng.random()
    if k < 0.7:
        layout(m, rng)
    elif k < 0.8:
        bidi(m, rng)
    else:
        whole(m, rng)


if __name__ == '__main__':
    vf.main(vf.Spec(
        'T02', case, quick=160, thorough=20000, case_timeout=60,
        rule='text elements with up to 3 nested tspans and lists of x, y, dx, dy on each and rotate on one, six DejaVu faces, five sizes, '
             'Latin letters without kerning and ligatures; mixed Hebrew and Latin; moved copies with kerning and ligatures',
        required=['chars', 'length', 'part', 'bbox', 'shape', 'path', 'advance', 'glyph', 'cell', 'bidi', 'moved', 'again', 'nested',
                  'mark', 'ligature', 'normalized'],
        anchors=['svgpy/text.py', 'svgpy/path.py', 'svgpy/freetype.py', 'svgpy/harfbuzz.py', 'svgpy/core.py'],
        assumptions=['horizontal text; rotate on one element of a text at most; glyph outlines are hinted, so their extents are compared to the '
                     'font file within a pixel']))
