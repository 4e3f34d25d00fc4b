"""N03: HarfBuzz buffers, features and fonts carry what they were given.

Reference: Python's own codecs for code points and cluster offsets, the documented grammar of feature strings, and
the font file itself (lib/ttf.py) for glyphs and advances."""
import itertools
import os

import ttf
import vf

DIRS = ['/usr/share/fonts/truetype/dejavu', vf.REPO + '/tests/fonts/dejavu', vf.REPO + '/tests/fonts/vazir']
FONTS = [os.path.join(d, n) for d in DIRS if os.path.isdir(d) for n in sorted(os.listdir(d)) if n.endswith('.ttf')]
CACHE = {}
LATIN = 'abcdeghkmnopqrsuvwxyzABCDEGHKLMNOPQRSTUVWXYZ0123456789'
HEBREW = '\u05d0\u05d1\u05d2\u05d3\u05d4\u05d5\u05d6\u05d7'
OFF = ('-kern', '-liga', '-calt', '-clig', '-dlig', '-ccmp', '-locl', '-rlig')
ALL = 0xffffffff


def fonts(path):
    if path not in CACHE:
        if len(CACHE) > 6:
            CACHE.clear()
        from svgpy.harfbuzz import HBBlob, HBFace, HBFont
        f = ttf.Font(path)
        face = HBFace.create(HBBlob.create(f.data))
        CACHE[path] = HBFont.create(face), face, f
    return CACHE[path]


def a_text(rng):
    alphabet = rng.choice([LATIN, LATIN, HEBREW, 'a\u00e9\u0416\u4e2d\U0001f600\U00010348', '\u0628\u0631\u062a x',
                           'ab\0c', 'e\u0301o\u0308'])
    return ''.join(rng.choice(alphabet) for _ in range(rng.randint(0, 14)))


def units(text, how):
    """The cluster of each character: its offset in code units."""
    out, n = [], 0
    for c in text:
        out.append(n)
        n += len(c.encode('utf-8')) if how == 8 else 2 if how == 16 and ord(c) > 0xffff else 1
    return out


def buffers(m, rng):
    from svgpy.harfbuzz import HBBuffer, HBDirection, HBLanguage, HBScript
    b = HBBuffer.create()
    model = []
    steps = []
    level = 0
    m.eq('fresh', (b.get_length(), b.get_direction().is_valid(), b.get_cluster_level()), (0, False, 0))
    for _ in range(rng.randint(1, 8)):
        k = rng.choice(['add', 'add', 'reverse', 'range', 'clear', 'reset', 'props', 'guess', 'clusters', 'groups'])
        steps.append(k)
        if k == 'add':
            how, text = rng.choice([8, 16, 32]), a_text(rng)
            getattr(b, 'add_utf%d' % how)(text)
            model += [[ord(c), u] for c, u in zip(text, units(text, how))]
            steps[-1] = 'add%d' % how
        elif k == 'reverse':
            b.reverse()
            model.reverse()
        elif k == 'range' and len(model) > 1:
            i = rng.randrange(len(model))
            j = rng.randint(i, len(model))
            b.reverse_range(i, j)
            model[i:j] = model[i:j][::-1]
        elif k == 'clear':
            b.clear_contents()
            model = []
        elif k == 'groups':
            # the clusters in reverse order, each one as it was
            b.reverse_clusters()
            parts = [list(g) for _, g in itertools.groupby(model, lambda x: x[1])]
            model = [x for part in reversed(parts) for x in part]
        elif k == 'reset':
            b.reset()
            model = []
            level = 0
            m.check('reset', not b.get_direction().is_valid() and b.get_language().tostring() is None, steps)
        elif k == 'clusters':
            n = rng.randrange(3)
            b.set_cluster_level(n)
            level = n
        elif k == 'props':
            d, s, la = rng.choice([4, 5, 6, 7]), rng.choice(['Latn', 'Arab', 'Hebr', 'Deva']), rng.choice(
                ['en', 'ja', 'zh-hant'])
            b.set_direction(HBDirection(d))
            b.set_script(HBScript.fromstring(s))
            b.set_language(HBLanguage.fromstring(la))
            m.eq('properties', (b.get_direction().direction, b.get_script().to_iso15924_string(),
                                b.get_language().tostring()), (d, s, la), steps)
        m.eq('cluster_level', b.get_cluster_level(), level, steps)
        got = [[i.codepoint, i.cluster] for i in b.get_glyph_infos()]
        m.eq('contents', (b.get_length(), got), (len(model), model), lambda: steps)
    m.state('buffer', tuple(steps))


def guess(m, rng):
    from svgpy.harfbuzz import HBBuffer
    script, chars, d = rng.choice([
        ('Latn', LATIN[:19], 'ltr'), ('Hebr', HEBREW, 'rtl'), ('Arab', '\u0628\u0631\u062a', 'rtl'),
        ('Cyrl', '\u0430\u0431\u0432', 'ltr'), ('Grek', '\u03b1\u03b2', 'ltr'), ('Hani', '\u4e00\u6c34', 'ltr'),
        ('Thai', '\u0e01\u0e02', 'ltr'), ('Hang', '\uac00\uac01', 'ltr'), ('Deva', '\u0905\u0915', 'ltr'),
        ('Syrc', '\u0710\u0712', 'rtl'), ('Goth', '\U00010330\U00010348', 'ltr')])
    text = ''.join(rng.choice(' 1.') for _ in range(rng.randint(0, 3))) + ''.join(
        rng.choice(chars) for _ in range(rng.randint(1, 6)))
    b = HBBuffer.create()
    how = rng.choice([8, 16, 32])
    getattr(b, 'add_utf%d' % how)(text)
    b.guess_segment_properties()
    m.eq('guessed', (b.get_script().to_iso15924_string(), b.get_direction().tostring()), (script, d),
         lambda: (how, ascii(text)))
    m.state('guess', script, how, text[:2])


def names(m, rng):
    """Directions, scripts, languages."""
    from svgpy.harfbuzz import HBDirection, HBLanguage, HBScript, hb_tag
    all4 = ['ltr', 'rtl', 'ttb', 'btt']
    k = rng.randrange(4)
    s = all4[k]
    s = rng.choice([s, s.upper(), s.title(), s[0]])
    d = HBDirection.fromstring(s)
    m.eq('direction', (d.direction, d.tostring(), d.is_valid(), d.is_horizontal(), d.is_vertical(), d.is_forward(),
                       d.is_backward()), (4 + k, all4[k], True, k < 2, k > 1, k in (0, 2), k in (1, 3)), s)
    m.eq('direction_reversed', (d.reverse().tostring(), d.reverse().reverse().direction),
         (['rtl', 'ltr', 'btt', 'ttb'][k], 4 + k), s)
    bad = HBDirection.fromstring(rng.choice(['', 'x', 'zz']))
    m.eq('direction_invalid', (bad.is_valid(), bad.is_horizontal(), bad.is_vertical(), bad.is_forward(),
                               bad.is_backward()), (False,) * 5)
    t = ''.join(rng.choice('abcdefghijklmnopqrstuvwxyz') for _ in range(4))
    known = rng.choice(['latn', 'arab', 'hebr', 'deva', 'thai', 'syrc', 'thaa', 'nkoo', 'cyrl', t])
    s = HBScript.fromstring(rng.choice([known, known.upper(), known.title(), known.swapcase()]))
    rtl = {'arab', 'hebr', 'syrc', 'thaa', 'nkoo'}
    if known != t:
        m.eq('script', (s.to_iso15924_string(), s.get_horizontal_direction().tostring()),
             (known.title(), 'rtl' if known in rtl else 'ltr'), known)
        m.eq('script_tag', (s.to_iso15924_tag(), HBScript.from_iso15924_tag(s.script).script),
             (hb_tag(*known.title()), s.script), known)
    tag = rng.choice(['en', 'EN', 'ja_JP', 'zh-Hant-TW', 'sr-Cyrl', 'x-klingon', t[:2]])
    m.eq('language', HBLanguage.fromstring(tag).tostring(), tag.lower().replace('_', '-'), tag)
    m.state('names', k, known, tag)


def a_feature(rng):
    """A feature string and what it means, as the documentation of hb_feature_from_string() has it."""
    tag = rng.choice(['kern', 'liga', 'ss01', 'smcp', 'aalt', 'calt'])
    value = None
    text = ''
    sign = rng.choice(['', '', '+', '-'])
    if sign:
        text += sign
        value = 1 if sign == '+' else 0
    text += rng.choice([tag, tag, "'%s'" % tag, '"%s"' % tag])
    start, end = 0, ALL
    if rng.random() < .5:
        big = rng.choice([50, 50, 50, 10 ** 5, 10 ** 9])
        a, b = rng.randrange(big), rng.randrange(big)
        how = rng.randrange(5)
        text += ['[]', '[:]', '[%d]' % a, '[%d:]' % a, '[:%d]' % b][how] if rng.random() < .7 else '[%d:%d]' % (a, b)
        if text.endswith('[%d:%d]' % (a, b)):
            start, end = a, b
        elif how == 2:
            start, end = a, a + 1
        elif how == 3:
            start = a
        elif how == 4:
            end = b
    if value is None:
        value = 1
        if rng.random() < .6:
            value = rng.choice([0, 1, 2, 5, 12345, 10 ** 9])
            text += '=%d' % value if value > 1 or rng.random() < .5 else ['=off', '=on'][value]
    return text, tag, value, start, end


def canonical(tag, value, start, end):
    text = ('-' if value == 0 else '') + tag
    if (start, end) != (0, ALL):
        text += '['
        if start:
            text += str(start)
        if end != start + 1:
            text += ':'
            if end != ALL:
                text += str(end)
        text += ']'
    return text + ('=%d' % value if value > 1 else '')


def features(m, rng):
    from svgpy.harfbuzz import HBFeature, hb_tag
    text, tag, value, start, end = a_feature(rng)
    f = HBFeature.fromstring(text)
    m.check('feature_read', f is not None, text)
    m.eq('feature', (f.tag, f.value, f.start, f.end), (hb_tag(*tag), value, start, end), text)
    out = f.tostring()
    if start == 0 and end <= 1:
        return  # HarfBuzz 8.3 writes these as "[]" and "[0]", which it reads as something else
    m.eq('feature_text', out, canonical(tag, value, start, end), text)
    again = HBFeature.fromstring(out)
    m.eq('feature_round_trip', (again.tag, again.value, again.start, again.end), (f.tag, f.value, f.start, f.end), text)
    other = rng.choice(['dlig', 'frac'])
    f.tag, f.value, f.start, f.end = hb_tag(*other), 3, 2, 9
    m.eq('feature_set', (f.tag, f.value, f.start, f.end, f.tostring()),
         (hb_tag(*other), 3, 2, 9, other + '[2:9]=3'), text)
    bad = rng.choice(['', 'abcde', 'kern=', 'kern[', '=1', '\u00e9\u00e9\u00e9', 'kern=x', '[1]', 'k-n=\u00e9'])
    m.check('feature_refused', HBFeature.fromstring(bad) is None, bad)
    m.state('feature', text)


def shape(m, rng):
    from svgpy.harfbuzz import HBBuffer, HBDirection, HBFeature, HBLanguage, HBOTFont, HBScript
    path = rng.choice(FONTS) if rng.random() < .3 or not CACHE else rng.choice(sorted(CACHE))
    o, face, f = fonts(path)
    scale = rng.choice([f.units, f.units, 1000, rng.randint(64, 9000)])
    yscale = rng.choice([scale, scale, rng.randint(64, 9000)])
    o.set_scale(scale, yscale)
    HBOTFont.set_funcs(o)
    m.eq('scale', o.get_scale(), (scale, yscale), path)
    m.eq('face', (face.get_upem(), face.get_glyph_count(), face.get_index()), (f.units, f.glyphs, 0), path)
    hebrew = rng.random() < .35 and ord(HEBREW[0]) in f.cmap
    text = ''.join(rng.choice(HEBREW if hebrew else LATIN) for _ in range(rng.randint(0, 10)))
    how = rng.choice([8, 16, 32])
    b = HBBuffer.create()
    getattr(b, 'add_utf%d' % how)(text)
    b.set_direction(HBDirection.fromstring('rtl' if hebrew else 'ltr'))
    b.set_script(HBScript.fromstring('Hebr' if hebrew else 'Latn'))
    b.set_language(HBLanguage.fromstring('he' if hebrew else 'en'))
    b.shape(o, [HBFeature.fromstring(t) for t in OFF])
    infos, pos = b.get_glyph_infos(), b.get_glyph_positions()
    want = [(f.cmap.get(ord(c), 0), u) for c, u in zip(text, units(text, how))]
    if hebrew:
        want.reverse()
    ctx = lambda: (path, ascii(text), how, scale)  # noqa: E731
    m.eq('shaped', [(i.codepoint, i.cluster) for i in infos], want, ctx)
    adv = [f.advance(g) * scale / f.units for g, _ in want]
    m.check('advances', len(pos) == len(want) and all(
        abs(p.x_advance - a) <= 1 and p.y_advance == 0 for p, a in zip(pos, adv)),
        lambda: (ctx(), [p.x_advance for p in pos], adv))
    if not hebrew:
        m.check('offsets', all((p.x_offset, p.y_offset) == (0, 0) for p in pos), ctx)
    c = rng.choice(text or 'a')
    g = f.cmap.get(ord(c), 0)
    m.eq('font_glyph', (o.get_glyph(ord(c)), o.get_glyph(0x10fffd)), (g, 0), ctx)
    m.check('font_advance', abs(o.get_glyph_h_advance(g) - f.advance(g) * scale / f.units) <= 1, ctx)
    m.check('font_v_advance', abs(o.get_glyph_v_advance(g) + (f.ascender - f.descender) * yscale / f.units) <= 2
            if 'vmtx' not in f.tables else True, lambda: (ctx(), o.get_glyph_v_advance(g)))
    m.state('shape', os.path.basename(path), text, how, scale)
    if m.current.endswith('/1'):
        m.sample({'font': os.path.basename(path), 'text': text, 'glyphs': [g for g, _ in want]})


def as_placed(m, rng):
    """What a shaped buffer says of its glyphs is what HarfBuzz has of them."""
    from svgpy.harfbuzz import HBBuffer, HBDirection, HBOTFont, ffi, lib
    path = rng.choice(FONTS) if rng.random() < .1 or not CACHE else rng.choice(sorted(CACHE))
    o, face, f = fonts(path)
    o.set_scale(rng.randint(64, 9000), rng.randint(64, 9000))
    HBOTFont.set_funcs(o)
    text = ''.join(rng.choice(LATIN[:9] + '\u0301\u0308\u0323\u0628\u064e\u0651 ') for _ in range(rng.randint(1, 10)))
    b = HBBuffer.create()
    getattr(b, 'add_utf%d' % rng.choice([8, 16, 32]))(text)
    b.guess_segment_properties()
    b.set_direction(HBDirection(rng.choice([4, 5, 6, 7])))
    b.shape(o)
    n = ffi.new('unsigned int *')
    raw = lib.hb_buffer_get_glyph_infos(b.hb_buffer, n)
    want = [(raw[k].codepoint, raw[k].mask, raw[k].cluster) for k in range(n[0])]
    m.eq('raw-infos', [(x.codepoint, x.mask, x.cluster) for x in b.get_glyph_infos()], want, lambda: (path, ascii(text)))
    raw = lib.hb_buffer_get_glyph_positions(b.hb_buffer, n)
    want = [(raw[k].x_advance, raw[k].y_advance, raw[k].x_offset, raw[k].y_offset) for k in range(n[0])]
    m.eq('raw-positions', [(x.x_advance, x.y_advance, x.x_offset, x.y_offset) for x in b.get_glyph_positions()], want,
         lambda: (path, ascii(text)))
    m.saw('raw.y_offset', sum(1 for w in want if w[3] not in (0, w[2])))


def settings(m, rng):
    """Faces and fonts keep the numbers they are given."""
    from svgpy.freetype import FTFace
    from svgpy.harfbuzz import HBBlob, HBFace, HBFont, HBFTFont
    path = rng.choice(FONTS) if not CACHE else rng.choice(sorted(CACHE))
    f = fonts(path)[2]
    face = HBFace.create(HBBlob.create(f.data))
    want = [f.units, 0, f.glyphs]
    for _ in range(rng.randint(0, 4)):
        k, v = rng.randrange(3), rng.randint(1, 5000)
        (face.set_upem, face.set_index, face.set_glyph_count)[k](v)
        want[k] = v
    m.eq('face-settings', [face.get_upem(), face.get_index(), face.get_glyph_count()], want, path)
    font = HBFont.create(face)
    m.eq('font-settings', (font.get_ppem(), font.get_ptem(), font.get_scale()), ((0, 0), 0.0, (want[0], want[0])), path)
    ft = FTFace.new_face(path)
    w, h = rng.randint(5, 80), rng.randint(5, 80)
    ft.set_pixel_sizes(w, h)
    hb = HBFTFont.create(ft)
    m.check('ft-scale', all(abs(a - b * 64) <= 64 for a, b in zip(hb.get_scale(), (w, h))), lambda: (path, w, h, hb.get_scale()))
    flags = rng.choice([0, 1, 2, 8, 9, 0x10])
    hb.set_load_flags(flags)
    m.eq('load-flags', hb.get_load_flags(), flags, path)


def ligatures(m, rng):
    """Features act on the clusters they are given for."""
    from svgpy.harfbuzz import HBBuffer, HBDirection, HBFeature, HBScript
    path = '/usr/share/fonts/truetype/dejavu/DejaVuSans.ttf'
    if not os.path.exists(path):
        path = vf.REPO + '/tests/fonts/dejavu/DejaVuSans.ttf'
    o, face, f = fonts(path)
    words = [rng.choice(['fi', 'fl', 'a', 'x', 'fi']) for _ in range(rng.randint(1, 6))]
    text = ''.join(words)
    at, spans = 0, []
    for w in words:
        spans.append((at, at + len(w)))
        at += len(w)
    default = rng.random() < .5           # ligatures are on unless said otherwise
    feats = [] if default else ['-liga']
    on = [default] * len(words)
    for k in range(len(words)):
        if rng.random() < .4:
            v = rng.random() < .5
            feats.append('%sliga[%d:%d]' % ('+' if v else '-', spans[k][0], spans[k][1]))
            on[k] = v
    b = HBBuffer.create()
    b.add_utf8(text)
    b.set_direction(HBDirection.fromstring('ltr'))
    b.set_script(HBScript.fromstring('Latn'))
    fs = [HBFeature.fromstring(t) for t in feats]
    b.shape(o, fs if feats or rng.random() < .5 else None)
    want = []
    for w, yes, (a, _) in zip(words, on, spans):
        if len(w) > 1 and yes:
            want.append((f.cmap[{'fi': 0xfb01, 'fl': 0xfb02}[w]], a))
        else:
            want += [(f.cmap[ord(c)], a + k) for k, c in enumerate(w)]
    m.eq('ligatures', [(i.codepoint, i.cluster) for i in b.get_glyph_infos()], want, lambda: (text, feats))
    m.state('liga', text, tuple(feats))


def blobs(m, rng):
    from svgpy.harfbuzz import HBBlob
    data = bytes(rng.randrange(256) for _ in range(rng.randint(0, 60)))
    n = rng.choice([-1, len(data), rng.randint(0, len(data))])
    want = data if n < 0 else data[:n]
    mode = rng.choice([1, 2, 4])
    b = HBBlob.create(data, n, mode)
    m.eq('blob', (bytes(b.get_data()), b.get_length()), (want, len(want)), lambda: (len(data), n, mode))
    m.state('blob', n, len(data), mode)


KINDS = [(buffers, 8), (guess, 3), (names, 3), (features, 8), (shape, 8), (ligatures, 4), (blobs, 2), (as_placed, 3), (settings, 1)]


def case(m, rng, i):
    f = rng.choices([k for k, _ in KINDS], [w for _, w in KINDS])[0]
    m.event(f.__name__)
    f(m, rng)


SPEC = vf.Spec(
    'N03', case, quick=16000, thorough=1500000,
    rule='a state is a sequence of buffer operations, a feature string, a shaped text of a font, or a set of names',
    required=['contents', 'properties', 'reset', 'guessed', 'direction', 'direction_reversed', 'script', 'script_tag',
              'language', 'feature', 'feature_text', 'feature_round_trip', 'feature_set', 'feature_refused', 'shaped',
              'advances', 'font_glyph', 'font_v_advance', 'ligatures', 'blob', 'scale', 'raw-infos', 'raw-positions', 'raw.y_offset', 'face-settings', 'font-settings', 'ft-scale',
              'load-flags'],
    anchors=['svgpy/harfbuzz.py'],
    assumptions=['texts are simple: one script per text, no combining or contextual shaping beyond ligatures'])

if __name__ == '__main__':
    vf.main(SPEC)
