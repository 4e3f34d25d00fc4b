"""T04: which OpenType features style, language and script switch on in the text drawn."""
import os

import mkfont
import vf

NS = 'http://www.w3.org/2000/svg'
FEATURES = ('hist smcp c2sc pcap c2pc unic titl jp78 jp83 jp90 jp04 smpl trad fwid pwid ruby liga clig dlig hlig calt '
            'lnum onum pnum tnum frac afrc ordn zero subs sups').split()
CUSTOM = ['ss01', 'ss02', 'cv01', 'salt', 'swsh', 'ZwBc', 'X-1~']
LETTERS = 'ABCDEFGHIJKLMNOPQRSTUWXYZabcdefghijklmnopqrstu'
BASE = dict(zip(FEATURES + CUSTOM, LETTERS))
LOCL = {'TRK ': 'v', 'DEU ': 'w', 'SRB ': 'x'}
LANGS = {'tr': 'TRK ', 'tr-TR': 'TRK ', 'de': 'DEU ', 'de-AT': 'DEU ', 'sr': 'SRB ', 'sr-Latn': 'SRB ', 'en': None, 'fr': None}
OVERRIDE = {'TRK': 'TRK ', 'DEU': 'DEU ', 'SRB': 'SRB ', 'FRA': None}
DEFAULT_ON = {'liga', 'clig', 'calt'}
ADV = 600
STATE = {}


def setup(m):
    top = os.path.abspath('feat%d' % os.getpid())
    os.makedirs(os.path.join(top, 'cache'))
    glyphs = {c: (ADV, (50, 0, 150, 500)) for c in LETTERS + 'vwxyz'}
    glyphs['V'] = (ADV, (50, 0, 150, 500))
    private = 0xf000
    alts = {}
    for tag, c in BASE.items():
        alts[c] = []
        for k in range(3 if tag in CUSTOM else 1):
            alts[c].append(chr(private))
            glyphs[chr(private)] = (ADV, (50, 0, 350 + 100 * k, 500))
            private += 1
    for c in LOCL.values():
        alts[c] = [chr(private)]
        glyphs[chr(private)] = (ADV, (50, 0, 350, 500))
        private += 1
    lig = chr(private)
    glyphs[lig] = (2 * ADV, (50, 0, 950, 500))

    def extra(order):
        gid = {c: k for k, c in enumerate(order) if c is not None}
        feats = []
        for tag, c in BASE.items():
            sub = {gid[c]: [gid[x] for x in alts[c]]} if tag in CUSTOM else {gid[c]: gid[alts[c][0]]}
            feats.append((tag, sub))
        # the ligature of y and z: a standard one
        feats = [f for f in feats if f[0] != 'liga'] + [('liga', {(gid['y'], gid['z']): gid[lig]})]
        langs = {t: [('locl', {gid[c]: gid[alts[c][0]]})] for t, c in LOCL.items()}
        return {b'GSUB': mkfont.gsub(feats, langs), b'kern': mkfont.kern({(gid['V'], gid['V']): -250})}
    mkfont.make(os.path.join(top, 'feat.ttf'), 'Feat', 'Regular', glyphs, extra=extra)
    conf = os.path.join(top, 'fonts.conf')
    with open(conf, 'w') as f:
        f.write('<?xml version="1.0"?><!DOCTYPE fontconfig SYSTEM "fonts.dtd"><fontconfig><dir>%s</dir><cachedir>%s/cache'
                '</cachedir></fontconfig>' % (top, top))
    os.environ['FONTCONFIG_FILE'] = conf
    from svgpy import Window
    from svgpy.window import SVGDOMImplementation
    STATE['window'] = Window(SVGDOMImplementation())


CAPS = {'small-caps': ['smcp'], 'all-small-caps': ['c2sc', 'smcp'], 'petite-caps': ['pcap'], 'all-petite-caps': ['c2pc', 'pcap'],
        'unicase': ['unic'], 'titling-caps': ['titl']}
JIS = {'jis78': 'jp78', 'jis83': 'jp83', 'jis90': 'jp90', 'jis04': 'jp04', 'simplified': 'smpl', 'traditional': 'trad'}
WIDE = {'full-width': 'fwid', 'proportional-width': 'pwid'}
LIG = {'common-ligatures': ['liga', 'clig'], 'discretionary-ligatures': ['dlig'], 'historical-ligatures': ['hlig'],
       'contextual': ['calt']}
NUM = [{'lining-nums': 'lnum', 'oldstyle-nums': 'onum'}, {'proportional-nums': 'pnum', 'tabular-nums': 'tnum'},
       {'diagonal-fractions': 'frac', 'stacked-fractions': 'afrc'}, {'ordinal': 'ordn'}, {'slashed-zero': 'zero'}]
POS = {'sub': ['subs'], 'super': ['sups']}


def variants(rng, kinds):
    """[(longhand, words, {tag: value})] for the kinds asked."""
    out = []
    for k in kinds:
        words, tags = [], {}
        if k == 'caps':
            w = rng.choice(list(CAPS))
            words, tags = [w], dict.fromkeys(CAPS[w], 1)
        elif k == 'position':
            w = rng.choice(list(POS))
            words, tags = [w], dict.fromkeys(POS[w], 1)
        elif k == 'alternates':
            words, tags = ['historical-forms'], {'hist': 1}
        elif k == 'east-asian':
            for table in rng.sample([JIS, WIDE, {'ruby': 'ruby'}], rng.randint(1, 3)):
                w = rng.choice(list(table))
                words.append(w)
                tags[table[w]] = 1
        elif k == 'numeric':
            for table in rng.sample(NUM, rng.randint(1, 4)):
                w = rng.choice(list(table))
                words.append(w)
                tags[table[w]] = 1
        elif k == 'ligatures':
            if rng.random() < .25:
                words, tags = ['none'], dict.fromkeys(['liga', 'clig', 'dlig', 'hlig', 'calt'], 0)
            else:
                for w in rng.sample(list(LIG), rng.randint(1, 4)):
                    on = rng.random() < .5
                    words.append(w if on else 'no-' + w)
                    tags.update(dict.fromkeys(LIG[w], int(on)))
        rng.shuffle(words)
        out.append((k, words, tags))
    return out


KINDS = ['caps', 'position', 'alternates', 'east-asian', 'numeric', 'ligatures']


def settings(rng):
    tags = {}
    parts = []
    for _ in range(rng.randint(1, 4)):
        t = rng.choice(FEATURES + CUSTOM * 3 + ['kern', 'liga', 'calt'])
        v = rng.choice([0, 1]) if t not in CUSTOM else rng.choice([0, 1, 2, 3])
        q = "'" if rng.random() < .8 else '"'
        how = rng.randrange(3)
        text = q + t + q
        if v == 1 and how == 0:
            pass
        elif v <= 1 and how == 1:
            text += ' ' + ('on' if v else 'off')
        else:
            text += ' %d' % v
        parts.append(text)
        if rng.random() < .15:
            # (not a feature's name, or not a value of one: has no effect)
            parts.append(rng.choice(["'abc' 1", "'abcde' on", "'sm\u00e9p' 1", "'\u00e5\u00e5\u00e5\u00e5'", "'smcp' yes", '""', "'frac' -1"]))
        tags[t] = v
    return rng.choice([', ', ',', ' , ']).join(parts), tags


def declare(rng):
    """(declarations, what it sets: {longhand: ...})"""
    decl, sets = [], {}
    how = rng.randrange(4)
    if how == 0:
        kinds = rng.sample(KINDS, rng.randint(1, 4))
        parts = variants(rng, kinds)
        if any(w == ['none'] for _, w, _ in parts):
            parts = [('ligatures', ['none'], dict.fromkeys(['liga', 'clig', 'dlig', 'hlig', 'calt'], 0))]
        words = [w for _, ws, _ in parts for w in ws]
        rng.shuffle(words)
        if rng.random() < .15:
            words, parts = ['normal'], []
        decl.append(('font-variant', ' '.join(words)))
        for k in KINDS:
            sets[k] = {}
        for k, _, tags in parts:
            sets[k] = tags
    elif how < 3:
        for k, words, tags in variants(rng, rng.sample(KINDS, rng.randint(1, 4))):
            if rng.random() < .15:
                words, tags = ['normal'], {}
            decl.append(('font-variant-' + k, ' '.join(words)))
            sets[k] = tags
    if rng.random() < .4:
        if rng.random() < .15:
            decl.append(('font-feature-settings', 'normal'))
            sets['settings'] = {}
        else:
            text, tags = settings(rng)
            decl.append(('font-feature-settings', text))
            sets['settings'] = tags
    if rng.random() < .3:
        v = rng.choice(['none', 'normal', 'auto'])
        decl.append(('font-kerning', v))
        sets['kern'] = v
    rng.shuffle(decl)
    return decl, sets


def attr(decl):
    return ' style="%s"' % '; '.join('%s: %s' % d for d in decl).replace('"', '&quot;') if decl else ''


def case(m, rng, i):
    from svgpy import SVGParser
    outer, inner = declare(rng), declare(rng)
    lang = rng.choice([None] * 3 + list(LANGS))
    how = rng.choice(['xml:lang', 'lang'])
    over = rng.choice([None] * 6 + list(OVERRIDE))
    if over:
        inner[0].append(('font-language-override', "%s" % over))
    text = ''.join(rng.choice(LETTERS + 'vwxyz') for _ in range(rng.randint(5, 30)))
    # what is on: characters of those features
    state = {}
    for _, sets in (outer, inner):
        state.update(sets)
    on = {}
    for k in KINDS:
        on.update(state.get(k, {}))
    if state.get('kern', 'auto') != 'auto':
        on['kern'] = int(state['kern'] == 'normal')
    on.update(state.get('settings', {}))
    text += ''.join(rng.choice(BASE[t]) for t in on if t in BASE)
    text += rng.choice(['', 'yz', 'VV', 'yzVV'])
    system = OVERRIDE[over] if over else LANGS.get(lang)
    where = rng.randrange(2)
    src = '<svg xmlns="%s" font-family="Feat" font-size="50px"><g%s%s><text id="t" x="0" y="0"%s%s>%s</text></g></svg>' % (
        NS, attr(outer[0]), ' %s="%s"' % (how, lang) if lang and where else '', attr(inner[0]),
        ' %s="%s"' % (how, lang) if lang and not where else '', text)
    doc = STATE['window'].document
    doc.replace_child(SVGParser().fromstring(src), doc.document_element)
    t = doc.get_element_by_id('t')
    m.state(tuple(sorted(on.items())), lang, over)

    def is_on(tag):
        return on.get(tag, int(tag in DEFAULT_ON))
    tag_of = {c: t for t, c in BASE.items()}
    want, length, pos, kerned = [], 0, 0, False
    while pos < len(text):
        c = text[pos]
        w, adv = 100, ADV
        if c == 'y' and text[pos + 1:pos + 2] == 'z' and is_on('liga'):
            w, adv = 900, 2 * ADV
            pos += 1
        elif c == 'V':
            if text[pos + 1:pos + 2] == 'V' and is_on('kern') != 0 if 'kern' in on else text[pos + 1:pos + 2] == 'V':
                adv -= 250
                kerned = True
        elif c in LOCL.values():
            if system and LOCL[system] == c:
                w = 300
        elif c in tag_of and tag_of[c] != 'liga':
            v = is_on(tag_of[c])
            if v:
                w = 200 + 100 * v
        want.append(w * .05)
        length += adv
        pos += 1
    path = t.get_path_data()
    boxes, cur = [], []
    for s in path:
        if s.type == 'M' and cur:
            boxes.append(cur)
            cur = []
        cur += s.values
    if cur:
        boxes.append(cur)
    got = [max(b[::2]) - min(b[::2]) for b in boxes]
    ctx = lambda: (src[len(NS):], on, system, [round(x, 1) for x in got], want)  # noqa: E731
    m.eq('glyphs', len(got), len(want), ctx)
    m.check('features', all(abs(a - b) <= 1.2 for a, b in zip(got, want)), ctx)
    total = t.get_computed_text_length()
    m.check('kerning', abs(total - length * .05) <= .1, lambda: (ctx(), total, length * .05))
    if kerned:
        m.saw('kerned')
    if any(on.get(k) for k in CUSTOM):
        m.saw('alternates')
    if system:
        m.saw('language')
    if set(state.get('settings', {})) & {t for k in KINDS for t in state.get(k, {})}:
        m.saw('settings_over_variant')


SPEC = vf.Spec(
    'T04', case, quick=3500, thorough=400000, setup=setup,
    rule='a state is the set of features with their values, a language and an override',
    required=['glyphs', 'features', 'kerning', 'kerned', 'alternates', 'language', 'settings_over_variant'],
    anchors=['svgpy/opentype.py', 'svgpy/text.py', 'svgpy/core.py'])

if __name__ == '__main__':
    vf.main(SPEC)
