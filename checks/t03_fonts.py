"""T03: which font file a text is set in, at which size, and with which measures."""
import math
import os
import random

import mkfont
import vf

NS = 'http://www.w3.org/2000/svg'
CHARS = 'abcdefghxH0 \u05d0\u05d1\u6c34'
WIDTHS = {1: ('ultra-condensed', 50), 2: ('extra-condensed', 63), 3: ('condensed', 75), 4: ('semi-condensed', 87),
          5: ('normal', 100), 6: ('semi-expanded', 113), 7: ('expanded', 125), 8: ('extra-expanded', 150),
          9: ('ultra-expanded', 200)}
SLANTS = {'normal': 0, 'italic': 100, 'oblique': 110}
NAMES = ['Alpha', 'Beta Gamma', 'Delta-12', 'Eps', 'Zeta:bold', 'Eta Theta Iota', 'Kappa1', 'Lambda', 'My-Own Font', 'Nu', 'Xi Two', 'Omi',
         'Pi-Pi', 'Rho', 'Sigma', 'Tau Serif', 'Ups Mono', 'Phi', 'Chi Sans', 'Psi', 'Omega', 'Ärger', 'Quux', 'Corge']
FARM = {}
STATE = {}


class Face(object):
    def __init__(self, **kw):
        self.__dict__.update(kw)

    @property
    def id(self):
        return self.style


def build(top):
    rng = random.Random(20181119)
    conf = os.path.join(top, 'fonts.conf')
    dirs = [os.path.join(top, 'one'), os.path.join(top, 'two')]
    for d in dirs + [os.path.join(top, 'cache')]:
        os.makedirs(d, exist_ok=True)
    n = 0
    for name in NAMES:
        faces = []
        combos = set()
        style = rng.choice(['any', 'any', 'weights', 'widths', 'slants', 'plain'])
        for _ in range({'plain': 1}.get(style, rng.randint(2, 12))):
            w = rng.choice([100, 200, 300, 400, 500, 600, 700, 800, 900]) if style in ('any', 'weights') else rng.choice([400, 700])
            k = rng.choice(list(WIDTHS)) if style in ('any', 'widths') else 5
            s = rng.choice(list(SLANTS)) if style in ('any', 'slants') else 'normal'
            combos.add((w, k, s))
        lacking = rng.random() < .4
        units = rng.choice([1000, 2048, 500, 256])
        for w, k, s in sorted(combos):
            n += 1
            chars = [c for c in CHARS if c in 'x0H ' and name not in ('Omega', 'Corge') or rng.random() < .85] if lacking else list(CHARS)
            if not any(c != ' ' for c in chars):
                chars.append('a')
            asc, desc, gap = rng.randint(units // 2, units), -rng.randint(0, units // 2), rng.randint(0, units // 4)
            glyphs = {}
            for c in chars:
                x = rng.randint(0, units // 5)
                y = rng.randint(-units // 5, units // 5) if c not in 'xH' else 0
                glyphs[c] = (rng.randint(units // 5, units * 2),
                             None if c == ' ' else (x, y, x + rng.randint(units // 10, units), y + rng.randint(units // 5, units)))
            label = 'F%03d' % n + {'normal': '', 'italic': ' Italic', 'oblique': ' Oblique'}[s]
            path = os.path.join(rng.choice(dirs), 'f%03d.ttf' % n)
            mkfont.make(path, name, label, glyphs, weight=w, width=k, italic=s == 'italic', oblique=s == 'oblique', units=units,
                        ascender=asc, descender=desc, gap=gap)
            faces.append(Face(family=name, style=label, path=path, weight=w, width=WIDTHS[k][1], slant=SLANTS[s], glyphs=glyphs,
                              units=units, asc=asc, desc=desc, gap=gap))
        FARM[name] = faces
    with open(conf, 'w') as f:
        f.write('<?xml version="1.0"?><!DOCTYPE fontconfig SYSTEM "fonts.dtd"><fontconfig>%s<cachedir>%s</cachedir>'
                '%s</fontconfig>' % (''.join('<dir>%s</dir>' % d for d in dirs), os.path.join(top, 'cache'), ''.join(
                    '<alias binding="same"><family>%s</family><prefer><family>%s</family></prefer></alias>' % p
                    for p in (('serif', 'Tau Serif'), ('sans-serif', 'Chi Sans'), ('monospace', 'Ups Mono')))))
    return conf


def setup(m):
    top = os.path.abspath('farm%d' % os.getpid())
    os.makedirs(top)
    os.environ['FONTCONFIG_FILE'] = STATE['conf'] = build(top)
    from svgpy import Window
    from svgpy.window import SVGDOMImplementation
    STATE['window'] = Window(SVGDOMImplementation())


GENERIC = {'serif': 'Tau Serif', 'sans-serif': 'Chi Sans', 'monospace': 'Ups Mono'}


def choose(families, stretch, style, weight, text):
    """CSS Fonts font matching, for a whole text."""
    for name in families:
        faces = FARM[GENERIC.get(name, name)]
        have = {f.width for f in faces}
        low = sorted((w for w in have if w < stretch), reverse=True)
        high = sorted(w for w in have if w > stretch)
        pick = [stretch] if stretch in have else low + high if stretch <= 100 else high + low
        faces = [f for f in faces if f.width == pick[0]]
        for s in {'normal': (0, 110, 100), 'italic': (100, 110, 0), 'oblique': (110, 100, 0)}[style]:
            if any(f.slant == s for f in faces):
                faces = [f for f in faces if f.slant == s]
                break
        have = {f.weight for f in faces}
        low = sorted((w for w in have if w < weight), reverse=True)
        high = sorted(w for w in have if w > weight)
        if weight in have:
            pick = [weight]
        elif weight < 400:
            pick = low + high
        elif weight > 500:
            pick = high + low
        else:
            pick = [w for w in high if w <= 500] + low + [w for w in high if w > 500]
        f, = [f for f in faces if f.weight == pick[0]]
        if all(c in f.glyphs or c == ' ' for c in text):
            return f
    return None


def css_name(rng, name):
    if name in GENERIC:
        return name
    plain = all(c.isalnum() or c in ' -' for c in name) and not any(w[0].isdigit() for w in name.split())
    if plain and rng.random() < .5:
        return name
    return "'%s'" % name


def styles(rng):
    fams = rng.sample(NAMES + list(GENERIC), rng.choice([1, 1, 2, 3]))
    stretch = rng.choice([v for v in WIDTHS.values()] + [(None, 100)] * 5)
    style = rng.choice(['normal', 'italic', 'oblique', None, None])
    weight = rng.choice([('normal', 400), ('bold', 700), (None, 400), (None, 400)] +
                        [(str(w), w) for w in range(100, 1000, 100)])
    size = rng.choice([10, 12, 16, 20, 24, 32, 40, 50, 64, 100, 12.5, 17.25])
    decl = [('font-family', ', '.join(css_name(rng, x) for x in fams)), ('font-size', '%gpx' % size)]
    decl += [(k, v) for k, v in (('font-stretch', stretch[0]), ('font-style', style), ('font-weight', weight[0])) if v]
    return fams, stretch[1], style or 'normal', weight[1], size, decl


def write(rng, decl):
    if rng.random() < .5:
        return ' style="%s"' % '; '.join('%s: %s' % d for d in decl)
    return ''.join(' %s="%s"' % d for d in decl)


def load(body):
    from svgpy import SVGParser
    doc = STATE['window'].document
    root = SVGParser().fromstring('<svg xmlns="%s" width="500" height="500">%s</svg>' % (NS, body))
    doc.replace_child(root, doc.document_element)
    return doc


def word(rng, fams):
    return ''.join(rng.choice(CHARS[:9] if rng.random() < .7 else CHARS.replace(' ', '')) for _ in range(rng.randint(1, 4)))


def selection(m, rng):
    from svgpy.core import Font
    fams, stretch, style, weight, size, decl = styles(rng)
    text = word(rng, fams)
    on_root = rng.random() < .3
    if on_root:
        doc = load('<g%s><text id="t">%s</text></g>' % (write(rng, decl), text))
    else:
        doc = load('<text id="t"%s>%s</text>' % (write(rng, decl), text))
    font = Font(doc.get_element_by_id('t'))
    want = choose(fams, stretch, style, weight, text)
    ctx = lambda: (decl, text)  # noqa: E731
    m.state('select', tuple(fams), stretch, style, weight)
    if want is None:
        m.check('fallback', font.face is not None and font.face.style_name.startswith('F'), ctx)
        m.event('fallback')
        return None
    got = font.face.style_name
    m.eq('face', got, want.style, lambda: (ctx(), [(f.style, f.width, f.slant, f.weight) for f in FARM[want.family]]))
    m.eq('family', font.family, want.family.replace('Ä', '?'), ctx)  # FreeType gives names in ASCII
    if got != want.style:
        return
    # measures
    ppem = font.height
    m.check('size', abs(ppem - size) <= .51, lambda: (ctx(), ppem))
    k = size / want.units

    def ceil(v):
        return {math.ceil(v + e) for e in (-.05, 0, .05)}
    m.check('ascent', font.ascent in ceil(want.asc * k), lambda: (ctx(), font.ascent, want.asc * k))
    m.check('descent', font.descent in {-x for x in ceil(-want.desc * k)} | {math.floor(want.desc * k + e) for e in (-.05, .05)},
            lambda: (ctx(), font.descent, want.desc * k))
    h = (want.asc - want.desc + want.gap) * k
    m.check('line_height', abs(font.line_height - h) <= .6, lambda: (ctx(), font.line_height, h))
    if 'x' in want.glyphs:
        b = want.glyphs['x'][1]
        m.check('x_height', abs(font.x_height - (b[3] - b[1]) * k) <= 1.5, lambda: (ctx(), font.x_height, b, k))
    if '0' in want.glyphs:
        a = want.glyphs['0'][0] * k
        m.check('ch_advance', abs(font.ch_advance - a) <= 1.5, lambda: (ctx(), font.ch_advance, a))
    if '\u6c34' in want.glyphs:
        a = want.glyphs['\u6c34'][0] * k
        m.check('ic_advance', abs(font.ic_advance - a) <= 1.5, lambda: (ctx(), font.ic_advance, a))
    else:
        m.eq('ic_advance', font.ic_advance, 0, ctx)
    # the measures are the same however often and in whichever order they are asked for
    again = [font.ascent, font.x_height, font.ch_advance, font.ic_advance, font.descent, font.ch_advance, font.x_height]
    m.eq('steady', (again[1], again[2]), (again[6], again[5]), ctx)
    return want


def drawn(m, rng):
    """Text is drawn with the glyphs and advances of the faces chosen."""
    one, two = styles(rng), styles(rng)
    synth = rng.choice([None, 'none', 'none', 'weight', 'style', 'weight style'])
    if synth:
        one[5].append(('font-synthesis', synth))
    a, b = word(rng, one[0]), word(rng, two[0])
    body = '<text id="t" x="0" y="0"%s>%s<tspan id="s"%s>%s</tspan></text>' % (write(rng, one[5]), a, write(rng, two[5]), b)
    # what the second does not say it takes from the first
    given = dict(two[5])
    stretch = two[1] if 'font-stretch' in given else one[1]
    style = two[2] if 'font-style' in given else one[2]
    weight = two[3] if 'font-weight' in given else one[3]
    f, g = choose(one[0], one[1], one[2], one[3], a), choose(two[0], stretch, style, weight, b)
    if f is None or g is None or any(not '!' <= c <= '~' for c in a + b):
        return
    doc = load(body)
    t = doc.get_element_by_id('t')
    ctx = lambda: (body, f.style, g.style)  # noqa: E731
    m.state('drawn', f.style, g.style, a, b)
    xs = []
    x = 0.0
    for c, face, size, slanted, heavy in [(c, f, one[4], one[2], one[3]) for c in a] + [(c, g, two[4], style, weight) for c in b]:
        adv, bx = face.glyphs[c]
        k = size / face.units
        allowed = synth or 'weight style'
        lean = 'style' in allowed and slanted != 'normal' and face.slant == 0
        bold = 'weight' in allowed and heavy > 400 and face.weight < 700
        # between the weights it is a matter of taste
        unsure = bold and not (heavy >= 700 and face.weight <= 400)
        xs.append((x + bx[0] * k, x + bx[2] * k, -bx[3] * k, -bx[1] * k, size, lean, bold, unsure))
        x += adv * k
    total = t.get_computed_text_length()
    m.check('length', abs(total - x) <= .02 * len(xs) + 1e-6, lambda: (ctx(), total, x))
    path = [s for s in t.get_path_data()]
    boxes, cur = [], []
    for s in path:
        if s.type == 'M' and cur:
            boxes.append(cur)
            cur = []
        cur += s.values
    if cur:
        boxes.append(cur)
    m.eq('boxes', len(boxes), len(xs), ctx)
    for pts, (x0, x1, y0, y1, size, lean, bold, unsure) in zip(boxes, xs):
        if unsure:
            m.event('unsure')
            continue
        tol = 1.3 + size / 60
        top, bottom = min(pts[1::2]), max(pts[1::2])
        at_top = [x for x, y in zip(pts[::2], pts[1::2]) if y - top < .2]
        at_bottom = [x for x, y in zip(pts[::2], pts[1::2]) if bottom - y < .2]
        got = min(at_bottom), max(at_bottom), top, bottom
        what = lambda: (ctx(), synth, got, (x0, x1, y0, y1), lean, bold)  # noqa: E731
        shift = min(at_top) - min(at_bottom)
        if lean:
            m.check('slanted', .1 * (bottom - top) <= shift <= .4 * (bottom - top), what)
            m.event('slanted')
        else:
            m.check('upright', abs(shift) <= .1, what)
        if bold:
            more = (got[1] - got[0]) - (x1 - x0)
            m.check('bold', size / 60 - .8 <= more <= size / 10 + .8, what)
            tol += size / 10
        else:
            m.check('not_bold', abs(got[1] - got[0] - (x1 - x0)) <= 1.1, what)
        if not lean:
            m.check('glyph', all(abs(p - q) <= tol for p, q in zip(got, (x0, x1, y0, y1))), what)


def library(m, rng):
    """fontconfig: what is installed, in whichever form it is asked."""
    from svgpy.fontconfig import FontConfig
    from svgpy.core import FontManager
    name = rng.choice(NAMES)
    faces = FARM[name]
    m.state('library', name)
    got = FontManager.list(name)
    want = sorted((name, f.path, 'TrueType', 0, 0, f.slant, f.weight, f.width) for f in faces)
    keys = ['family', 'file', 'fontformat', 'index', 'pixelsize', 'slant', 'weight', 'width']
    m.eq('listed', sorted(tuple(d[k] for k in keys) for d in got), want, name)
    m.eq('matched_family', FontManager.match(name), name, name)
    odd = rng.choice(NAMES)
    m.eq('matched_family', FontManager.match(odd.upper() if odd.isascii() else odd), odd, odd)
    gen = rng.choice(list(GENERIC))
    m.eq('generic', FontManager.match(gen), GENERIC[gen], gen)
    everything = [f for x in FARM.values() for f in x]
    m.eq('all_files', sorted(FontConfig.list(None, ['file'], '%{file}')), sorted(f.path for f in everything), None)
    m.eq('all_default', sorted(FontConfig.list()),
         sorted('%s: %s:style=%s' % (f.path, escaped(f.family), f.style) for f in everything), None)
    s = rng.choice(list(SLANTS.values()))
    m.eq('by_slant', sorted(FontConfig.list(':slant=%d' % s, ['file'], '%{file}')),
         sorted(f.path for f in everything if f.slant == s), s)
    w = rng.choice(list(WIDTHS.values()))[1]
    m.eq('by_width', sorted(FontConfig.list(':width=%d' % w, ['file', 'style'], '%{style}|%{file}')),
         sorted(f.style + '|' + f.path for f in everything if f.width == w), w)
    m.eq('none', FontConfig.list(':family=No Such Family', ['file'], '%{file}'), [], None)
    f = rng.choice(everything)
    same = [x for x in FARM[f.family]]
    got = FontConfig.match('%s:slant=%d:weight=%d:width=%d' % (escaped(f.family), f.slant, FontConfig.weight_from_open_type(f.weight), f.width),
                           '%{file}')
    m.eq('match_exact', got, [f.path], lambda: (f.family, f.style, [(x.style, x.weight) for x in same]))
    m.check('config_files', STATE['conf'] in FontConfig.get_config_files(), None)
    for fc, css in FontConfig.FC_WEIGHT_MAP.items():
        m.eq('weights', (FontConfig.weight_to_open_type(fc), FontConfig.weight_from_open_type(css)), (css, fc), (fc, css))
    w = rng.randint(1, 1000)
    m.check('weights_monotonic', FontConfig.weight_from_open_type(w) <= FontConfig.weight_from_open_type(w + rng.randint(1, 100)), w)


def escaped(name):
    return ''.join('\\' + c if c in '\\-:,' else c for c in name)


def equality(m, rng):
    """Fonts are equal when their styles are."""
    from svgpy.core import Font
    a = styles(rng)
    b = styles(rng)
    merged = []
    for k, v in a[5]:
        merged.append((k, dict(b[5]).get(k, v) if rng.random() < .2 else v))
    doc = load('<text id="a"%s>a</text><text id="b"%s>a</text><text id="c"%s>a</text>' % (
        write(rng, a[5]), write(rng, a[5]), write(rng, merged)))
    fa, fb, fc = (Font(doc.get_element_by_id(k)) for k in 'abc')
    m.check('equal', fa == fb and not fa != fb and fa == fa, lambda: a)
    norm = [(k, v.replace("'", '')) for k, v in a[5]]
    norm2 = [(k, v.replace("'", '')) for k, v in merged]
    same = [dict(x) for x in (norm, norm2)]
    for d in same:
        d['font-weight'] = {'normal': '400', 'bold': '700'}.get(d.get('font-weight', '400'), d.get('font-weight', '400'))
    m.eq('equality', fa == fc, same[0] == same[1], lambda: (norm, norm2))
    m.check('foreign', fa != 'font' and not (fa == 3), None)


def case(m, rng, i):
    f = rng.choices([selection, drawn, library, equality], [10, 5, 1, 1])[0]
    m.event(f.__name__)
    f(m, rng)


SPEC = vf.Spec(
    'T03', case, quick=4000, thorough=300000, setup=setup,
    rule='a state is a font request (families, stretch, style, weight), a drawn pair of texts with the faces chosen, or a family listed',
    required=['face', 'family', 'size', 'ascent', 'descent', 'line_height', 'x_height', 'ch_advance', 'ic_advance', 'fallback',
              'length', 'boxes', 'glyph', 'slanted', 'upright', 'bold', 'not_bold', 'listed', 'matched_family', 'generic', 'all_files', 'match_exact', 'weights', 'equality'],
    anchors=['svgpy/core.py', 'svgpy/fontconfig.py'])

if __name__ == '__main__':
    vf.main(SPEC)
