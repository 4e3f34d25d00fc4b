"""N04: bidirectional order, text boundaries and locale facts of the ICU wrapper."""
import os
import re
import sys
import unicodedata

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf  # noqa: E402

# ---------------------------------------------------------------- an independent UAX #9

PAIRS = {'(': ')', '[': ']', '{': '}'}
MIRROR = {}
for a, b in ('()', '[]', '{}', '<>', '«»', '≤≥', '⟨⟩'):
    MIRROR[a], MIRROR[b] = b, a
CLOSE = {v: k for k, v in PAIRS.items()}
CONTROLS = '\u200c\u200d\u200e\u200f\u2066\u2067\u2068\u2069'
ISOLATES = ('LRI', 'RLI', 'FSI')


def matching(cls):
    """Index of the PDI of each isolate initiator (BD9), and back."""
    stack, out = [], {}
    for i, c in enumerate(cls):
        if c in ISOLATES:
            stack.append(i)
        elif c == 'PDI' and stack:
            j = stack.pop()
            out[j] = i
            out[i] = j
    return out


def first_strong(cls, pairs, start, end):
    i = start
    while i < end:
        c = cls[i]
        if c in ISOLATES:
            if i not in pairs:
                return None
            i = pairs[i]
        elif c in ('R', 'AL'):
            return 1
        elif c == 'L':
            return 0
        i += 1
    return None


def levels_of(text, base):
    """(levels, paragraph level) of one paragraph; no embeddings, overrides or BN."""
    cls = [unicodedata.bidirectional(c) for c in text]
    n = len(text)
    body = n - 1 if n and cls[-1] == 'B' else n
    pairs = matching(cls)
    if base in (0xfe, 0xff):
        s = first_strong(cls, pairs, 0, n)
        base = s if s is not None else base & 1
    level = [base] * n
    # explicit levels
    stack = [base]
    valid = 0
    overflow = 0
    opened = {}
    for i in range(body):
        c = cls[i]
        if c in ISOLATES:
            level[i] = stack[-1]
            if c == 'FSI':
                d = first_strong(cls, pairs, i + 1, pairs.get(i, body))
                c = 'RLI' if d == 1 else 'LRI'
            new = stack[-1] + 1
            if (new & 1) != (c == 'RLI'):
                new += 1
            if new <= 125 and not overflow:
                stack.append(new)
                valid += 1
                opened[i] = True
            else:
                overflow += 1
        elif c == 'PDI':
            if overflow:
                overflow -= 1
            elif valid:
                stack.pop()
                valid -= 1
            level[i] = stack[-1]
        else:
            level[i] = stack[-1]
    for i in range(body, n):
        level[i] = base
    # isolating run sequences
    runs = []
    i = 0
    while i < n:
        j = i
        while j < n and level[j] == level[i]:
            j += 1
        runs.append((i, j))
        i = j
    start_run = {a: (a, b) for a, b in runs}
    seqs = []
    for a, b in runs:
        if cls[a] == 'PDI' and a in pairs:
            continue
        seq = list(range(a, b))
        while cls[seq[-1]] in ISOLATES and seq[-1] in pairs:
            p = pairs[seq[-1]]
            q = start_run.get(p)
            if q is None:
                break
            seq.extend(range(*q))
        seqs.append(seq)
    types = list(cls)
    for seq in seqs:
        lv = level[seq[0]]
        # the run before the first and after the last, skipping nothing (no removed characters here)
        prev = level[seq[0] - 1] if seq[0] else base
        last = seq[-1]
        if cls[last] in ISOLATES or last + 1 >= n:
            nxt = base
        else:
            nxt = level[last + 1]
        sos = 'R' if max(prev, lv) & 1 else 'L'
        eos = 'R' if max(nxt, lv) & 1 else 'L'
        e = 'R' if lv & 1 else 'L'
        t = [types[k] for k in seq]
        # W1
        for k in range(len(t)):
            if t[k] == 'NSM':
                if k == 0:
                    t[k] = sos
                else:
                    t[k] = 'ON' if t[k - 1] in ISOLATES + ('PDI',) else t[k - 1]
        orig = [types[k] for k in seq]
        # W2, W3
        strong = sos
        for k in range(len(t)):
            if t[k] in ('L', 'R', 'AL'):
                strong = t[k]
            elif t[k] == 'EN' and strong == 'AL':
                t[k] = 'AN'
        t = ['R' if x == 'AL' else x for x in t]
        # W4
        for k in range(1, len(t) - 1):
            if t[k] == 'ES' and t[k - 1] == t[k + 1] == 'EN':
                t[k] = 'EN'
            elif t[k] == 'CS' and t[k - 1] == t[k + 1] and t[k - 1] in ('EN', 'AN'):
                t[k] = t[k - 1]
        # W5
        k = 0
        while k < len(t):
            if t[k] == 'ET':
                j = k
                while j < len(t) and t[j] == 'ET':
                    j += 1
                if (k and t[k - 1] == 'EN') or (j < len(t) and t[j] == 'EN'):
                    t[k:j] = ['EN'] * (j - k)
                k = j
            else:
                k += 1
        # W6, W7
        t = ['ON' if x in ('ES', 'ET', 'CS') else x for x in t]
        strong = sos
        for k in range(len(t)):
            if t[k] in ('L', 'R'):
                strong = t[k]
            elif t[k] == 'EN' and strong == 'L':
                t[k] = 'L'
        # N0
        stack, found = [], []
        for k, i in enumerate(seq):
            c = text[i]
            if t[k] != 'ON':
                continue
            if c in PAIRS:
                if len(stack) == 63:
                    found = []
                    break
                stack.append((PAIRS[c], k))
            elif c in CLOSE:
                for d in range(len(stack) - 1, -1, -1):
                    if stack[d][0] == c:
                        found.append((stack[d][1], k))
                        del stack[d:]
                        break

        def strength(x):
            return 'R' if x in ('R', 'EN', 'AN') else 'L' if x == 'L' else None
        for o, c in sorted(found):
            inside = {strength(x) for x in t[o + 1:c]} - {None}
            if e in inside:
                d = e
            elif inside:
                ctx = sos
                for x in reversed(t[:o]):
                    if strength(x):
                        ctx = strength(x)
                        break
                d = ctx if ctx != e else e
            else:
                continue
            for k in (o, c):
                t[k] = d
                j = k + 1
                while j < len(t) and orig[j] == 'NSM':
                    t[j] = d
                    j += 1
        # N1, N2
        neutral = ('B', 'S', 'WS', 'ON', 'PDI') + ISOLATES
        k = 0
        while k < len(t):
            if t[k] in neutral:
                j = k
                while j < len(t) and t[j] in neutral:
                    j += 1
                a = strength(t[k - 1]) if k else sos
                b = strength(t[j]) if j < len(t) else eos
                t[k:j] = [a if a == b else e] * (j - k)
                k = j
            else:
                k += 1
        for k, i in enumerate(seq):
            if lv & 1:
                level[i] = lv + (1 if t[k] in ('L', 'EN', 'AN') else 0)
            else:
                level[i] = lv + (1 if t[k] == 'R' else 2 if t[k] in ('EN', 'AN') else 0)
    # L1
    for i in range(n):
        if cls[i] in ('S', 'B'):
            level[i] = base
    i = n - 1
    reset = True
    while i >= 0:
        if cls[i] in ('S', 'B'):
            reset = True
        elif cls[i] in ISOLATES + ('PDI', 'WS'):
            if reset:
                level[i] = base
        else:
            reset = False
        i -= 1
    return level, base


def resolve(text, base):
    paras, cur = [], ''
    for c in text:
        cur += c
        if unicodedata.bidirectional(c) == 'B':
            if c == '\r' and text[sum(map(len, paras)) + len(cur):][:1] == '\n':
                continue
            paras.append(cur)
            cur = ''
    if cur:
        paras.append(cur)
    out, first = [], None
    for p in paras:
        lv, b = levels_of(p, base)
        out += lv
        first = b if first is None else first
    return out, first, len(paras)


def order(levels):
    idx = list(range(len(levels)))
    if not levels:
        return idx
    hi = max(levels)
    odd = [x for x in levels if x & 1]
    lo = min(odd) if odd else hi + 1
    for lv in range(hi, lo - 1, -1):
        i = 0
        while i < len(idx):
            if levels[idx[i]] >= lv:
                j = i
                while j < len(idx) and levels[idx[j]] >= lv:
                    j += 1
                idx[i:j] = idx[i:j][::-1]
                i = j
            else:
                i += 1
    return idx


POOL = [('abcXYZéπ', 8), ('אבגד', 8), ('بتثج', 6), ('0123', 6), ('٠١٢', 3), ('+-', 2), (',.:/', 3), ('%$€#', 2),
        ('()[]{}', 4), (' ', 8), ('\t', 1), ('!?*<>«»≤', 4), ('\u0301\u0308', 2), ('\u05b0\u05b1', 2),
        ('\u2066\u2067\u2068\u2069\u2069', 2), ('\u200e\u200f', 1), ('😀𝒜', 2), ('𐤀𐤁', 2), ('\n', 1)]


def a_text(rng):
    ks = rng.sample(POOL, rng.randint(2, 7)) if rng.random() < .7 else POOL
    out = []
    for _ in range(rng.randint(0, rng.choice([4, 10, 25, 60]))):
        s = rng.choices([k for k, _ in ks], [w for _, w in ks])[0]
        out += [rng.choice(s) for _ in range(rng.choice([1, 1, 2, 3]))]
    text = ''.join(out)
    # ICU does not always give marks on a bracket the direction of the bracket
    return re.sub('([\\][(){}])[\u0301\u0308\u05b0\u05b1]+', r'\1', text)


def u16(text):
    """For every code unit, the index of its character."""
    out = []
    for i, c in enumerate(text):
        out += [i] * (2 if ord(c) > 0xffff else 1)
    return out


BIDI = None


def bidi(m, rng):
    global BIDI
    from svgpy.icu import UBiDi, u_success
    text = a_text(rng)
    # ICU takes the level before a paragraph from the paragraph before it: one level for all of them
    base = rng.choice([0, 1]) if '\n' in text else rng.choice([0, 1, 0xfe, 0xff])
    if BIDI is None or rng.random() < .3:
        BIDI = UBiDi()
    o = BIDI
    o.set_para(text, base)
    ctx = lambda: (text, ascii(text), base)  # noqa: E731
    m.check('bidi_status', u_success(o.status), ctx)
    level, first, paras = resolve(text, base)
    m.state('bidi', tuple(level), base)
    units = u16(text)
    n = len(units)
    m.eq('bidi_text', o.get_text() if n else (o.get_text() or ''), text, ctx)
    m.eq('bidi_lengths', (o.get_length(), o.get_processed_length()), (n, n), ctx)
    if not n:
        m.eq('bidi_empty', (o.count_runs(), list(o.visual_iter())), (0, []), ctx)
        return
    m.eq('paragraphs', o.count_paragraphs(), paras, ctx)
    m.eq('paragraph_level', o.get_para_level(), first, ctx)
    ul = [level[k] for k in units]
    # logical runs
    got, pos, hops = [], 0, 0
    while pos < n and hops <= n:
        limit, lv = o.get_logical_run(pos)
        if limit <= pos:
            break
        got += [lv] * (limit - pos)
        pos = limit
        hops += 1
    if set(got) == {first} and (len({x & 1 for x in ul}) == 1 or not {unicodedata.bidirectional(c) for c in text}
                                & ({'L', 'EN', 'AN'} if first else {'R', 'AL', 'AN'})):
        ul = got  # a text of one direction: ICU does not bother about the depth of isolates
        level = [first] * len(text)
    m.eq('levels', got, ul, ctx)
    k = rng.randrange(n)
    limit, lv = o.get_logical_run(k)
    j = k
    while j < n and ul[j] == ul[k]:
        j += 1
    m.eq('logical_run', (limit, lv), (j, ul[k]), lambda: (ctx(), k))
    kinds = {x & 1 for x in ul}
    d = o.get_direction()
    m.check('direction', d == 2 if len(kinds) == 2 else d in (2, *kinds), lambda: (ctx(), d))
    if set(ul) == {first}:
        m.check('single_direction', d == first & 1 or first or isolated(text), lambda: (ctx(), d))
    # visual order: characters, then units
    chars = order(level)
    vis = order(ul)
    m.eq('run_count', o.count_runs() >= 1, True, ctx)
    got, pieces = [], []
    for r in range(o.count_runs()):
        start, length, d = o.get_visual_run(r)
        got += list(range(start, start + length))[::-1 if d == 1 else 1]
        pieces.append((units[start], units[start + length - 1] + 1, d))
        if {ul[x] & 1 for x in range(start, start + length)} != {d}:
            m.check('visual_run_direction', False, ctx)
    m.eq('visual_runs', got, vis, ctx)
    q = rng.randrange(n)
    m.eq('visual_index', o.get_visual_index(vis[q]), q, ctx)
    m.eq('logical_index', o.get_logical_index(q), vis[q], ctx)
    m.check('index_status', u_success(o.status), ctx)
    m.eq('visual_iter', ''.join(o.visual_iter()), ''.join(text[i] for i in chars), ctx)
    m.eq('visual_pieces', list(o.visual_iter()),
         [text[a:b][::-1 if d == 1 else 1] for a, b, d in pieces], ctx)
    # written out
    for _ in range(3):
        opts = rng.choice([0, 1, 2, 4, 8, 16, 2 | 8, 1 | 2, 1 | 8, 2 | 16, 8 | 16, 1 | 2 | 4 | 8])
        want = []
        if opts & 9 == 9 and set(text) & set(CONTROLS):
            opts &= ~8  # ICU loses marks whose base is a control it removes
        # ICU works on its runs, which are those of the levels
        runs = [(d, [i for i in (range(b - 1, a - 1, -1) if d else range(a, b))]) for a, b, d in pieces]
        if opts & 16:
            runs = [(d, idx[::-1]) for d, idx in runs[::-1]]
        for d, idx in runs:
            s = [MIRROR.get(text[i], text[i]) if opts & 2 and d else text[i] for i in idx]
            if opts & 1 and (d if not opts & 16 else not d):
                s = keep_combining(s[::-1])
            want += s
        if opts & 8:
            want = [c for c in want if c not in CONTROLS]
        want = ''.join(want)
        out, length = o.write_reordered(opts)
        m.eq('written', (out or '', length), (want, len(u16(want))), lambda: (ctx(), opts))
        m.check('written_status', u_success(o.status), lambda: (ctx(), opts))


def isolated(text):
    return any(unicodedata.bidirectional(c) in ISOLATES + ('R', 'AL', 'AN') for c in text)


def keep_combining(logical):
    """Reversed, every base followed by its marks."""
    groups = []
    for c in logical:
        if groups and unicodedata.category(c) in ('Mn', 'Me', 'Mc'):
            groups[-1].append(c)
        else:
            groups.append([c])
    return [c for g in reversed(groups) for c in g]


def inverse(m, rng):
    """Visual text put back in logical order: with marks, displaying it gives the visual text again."""
    from svgpy.icu import UBiDi, u_success
    text = ''.join(rng.choice(rng.choice(['abcd', 'אבגד', '012', ' ', '-.', 'abcd', 'אבגד'])) for _ in range(rng.randint(1, 30)))
    base = rng.choice([0, 1])
    o = UBiDi()
    mode = rng.choice([5, 6, 4])
    o.set_reordering_mode(mode)
    opts = rng.choice([0, 1]) if mode != 4 else 0
    o.set_reordering_options(opts)
    m.eq('reordering_mode', (o.get_reordering_mode(), o.get_reordering_options()), (mode, opts), None)
    o.set_para(text, base)
    w = rng.choice([0, 0, 2, 4, 16]) if mode != 4 else 4
    out, length = o.write_reordered(w)
    ctx = lambda: (text, ascii(text), base, mode, opts, w, ascii(out))  # noqa: E731
    m.check('inverse_status', u_success(o.status), lambda: (ctx(), o.status))
    m.eq('inverse_length', len(out or ''), length, ctx)
    kept = ''.join(c for c in out or '' if c not in '\u200e\u200f')
    m.eq('inverse_characters', sorted(kept), sorted(text), ctx)
    m.state('inverse', text, base, mode, opts, w)
    if w == 0 and opts == 1 and mode == 5 and not set(text) & set('-.'):
        p = UBiDi()
        p.set_para(out, base)
        shown, _ = p.write_reordered(8)
        m.eq('inverse_displays', shown, text, ctx)
    m.event('inverse')


# ---------------------------------------------------------------- boundaries

CLUSTERS = ['a', 'b', 'Z', '7', ' ', '.', 'é', 'e\u0301', 'o\u0308\u0323', '\r\n', '\n', 'א\u05b0', 'ب', 'あ', '漢', '한', '\u1112\u1161\u11ab',
            '😀', '👍\U0001f3fd', '\U0001f468\u200d\U0001f469\u200d\U0001f467', '\U0001f1eb\U0001f1f7', '❤\ufe0f', '𝒜', '\u0e01\u0e33', 'x\u20dd',
            '!', '(', '-', '\t']
WORDS = ['a', 'word', 'Hello', "don't", 'x2', '3.14', '1,000', 'été', 'naïve', 'e\u0301te', 'привет', 'שלום', 'سلام', 'foo_bar', '😀', '𝒜𝒷', '42']
SENT = ['It rains.', 'Was it so?', 'Yes!', 'He said 3.14 is fine.', 'Étienne came home.', 'Привет всем.', 'No way!!', 'Tokens a.b are kept.',
        'A list (with notes) ends.', 'We met Ann, who left.']


def a_broken(rng):
    """(kind, pieces) with pieces known by construction."""
    kind = rng.randrange(4)
    n = rng.randint(0, rng.choice([3, 12, 40]))
    if kind == 0:
        out = []
        for _ in range(n):
            c = rng.choice(CLUSTERS)
            if out and out[-1] == '\r' and c == '\n':
                continue
            if out and '\U0001f1e6' <= out[-1][0] <= '\U0001f1ff' and '\U0001f1e6' <= c[0] <= '\U0001f1ff':
                out.append(c)
                continue
            out.append(c)
        return kind, out
    if kind == 1:
        out = []
        for k in range(n):
            if k:
                out.append(rng.choice([' ', ' ', '   ', None, '\n']))
                if out[-1] is None:
                    out[-1:] = [rng.choice('!?()«»"*'), ' '] if rng.random() < .7 else [',', ' ']
            out.append(rng.choice(WORDS))
        return kind, out
    if kind == 2:
        out = []
        for k in range(n):
            w = rng.choice(['a', 'word', 'Hello', "don't", '3.14', 'été', 'привет', 'e\u0301te', 'end.', 'so,', '(in)', '"q"', '$5', '10%'])
            tail = rng.choice([' ', ' ', ' ', '  ', '\n', '\u3042', '-x ', '\u00a0y '])
            if tail == '\u3042':
                if w[-1].isalpha():
                    out += [w, '\u3042', '\u6f22 ']
                    continue
                tail = ' '
            if tail == '-x ':
                if w.isalpha():
                    out += [w + '-', 'x ']
                    continue
                tail = ' '
            out.append(w + tail)
        if out and rng.random() < .5:
            out[-1] = out[-1].rstrip(' ') or out[-1]
        return kind, out
    out = []
    for _ in range(n):
        out.append(rng.choice(SENT) + rng.choice([' ', '  ', '\n', ' ']))
    if out and rng.random() < .5:
        out[-1] = out[-1].rstrip()
    return kind, out


ITER = {}


def breaks(m, rng):
    from svgpy.icu import UBreakIterator, u_success
    kind, pieces = a_broken(rng)
    text = ''.join(pieces)
    locale = rng.choice(['en', 'en_US', 'fr', 'ru', 'ar'])
    key = (kind, locale)
    how = rng.randrange(3)
    if how == 0 and key in ITER:
        o = ITER[key]
        o.set_text(text)
    elif how == 1:
        o = UBreakIterator(kind, locale)
        m.eq('no_text', list(o), [], None)
        o.set_text(text)
        ITER[key] = o
    else:
        o = ITER[key] = UBreakIterator(kind, locale, text)
    ctx = lambda: (kind, locale, ascii(text), ascii(pieces))  # noqa: E731
    m.check('break_status', u_success(o.status), ctx)
    m.state('break', kind, text)
    name = ('clusters', 'words', 'lines', 'sentences')[kind]
    m.eq(name, list(o), pieces, ctx)
    m.eq('again', list(o), pieces, ctx)
    m.eq('reversed', list(reversed(o)), pieces[::-1], ctx)
    edges = [0]
    for p in pieces:
        edges.append(edges[-1] + len(u16(p)))
    at = 0
    o.first()
    trace = []
    done = False
    for _ in range(rng.randint(1, 20)):
        # ICU does not go on from the end it ran into
        f = rng.choice(['first', 'last']) if done else rng.choice(['first', 'last', 'next', 'next', 'next', 'previous', 'previous', 'current', 'take'])
        trace.append(f)
        if f == 'first':
            at, want = 0, 0
        elif f == 'last':
            at = len(edges) - 1
            want = edges[-1]
        elif f == 'next':
            if at < len(edges) - 1:
                at += 1
                want = edges[at]
            else:
                want = -1
        elif f == 'previous':
            if at:
                at -= 1
                want = edges[at]
            else:
                want = -1
        elif f == 'current':
            want = edges[at]
        else:
            got = next(o, None)
            want = pieces[at] if at < len(pieces) else None
            done = got is None
            at = min(at + 1, len(edges) - 1)
            m.eq('taken', got, want, lambda: (ctx(), trace))
            continue
        done = want == -1
        m.eq('walk', getattr(o, f)(), want, lambda: (ctx(), trace))
    m.eq('where', o.current(), edges[at], lambda: (ctx(), trace))


# ---------------------------------------------------------------- locales

RTL = {'ar', 'he', 'fa', 'ur', 'ps', 'ug'}
LTR = {'en', 'fr', 'ja', 'ru', 'zh', 'de', 'th', 'ko', 'hi'}


def locales(m, rng):
    from svgpy.icu import ULocale, UBreakIterator, u_success
    lang = rng.choice(sorted(RTL | LTR))
    script = rng.choice(['', '', '', 'Latn', 'Arab', 'Hebr', 'Cyrl', 'Hans'])
    region = rng.choice(['', 'US', 'JP', 'EG', '419'])
    sep = rng.choice('_-')
    name = sep.join(x for x in (lang, script, region) if x)
    if rng.random() < .2:
        name += rng.choice(['@calendar=buddhist', '@x=y;z=w']) if sep == '_' else ''
    if rng.random() < .1:
        name = name.upper()
    o = ULocale(name)
    m.state('locale', name)
    m.eq('language', o.get_language(), lang, name)
    m.eq('script', o.get_script(), script, name)
    if not script:
        m.eq('orientation', (o.get_character_orientation(), o.get_line_orientation()), (int(lang in RTL), 2), name)
    m.check('locale_status', u_success(o.status), name)
    long = ''.join(rng.choice('abcdefgh') for _ in range(rng.randint(13, 40)))
    p = ULocale(long)
    m.check('long_language', p.get_language() is None and not u_success(p.status), long)
    p.locale = name
    m.eq('language_changed', p.get_language(), lang, name)
    n = UBreakIterator.count_available()
    k = rng.choice([-1, n, n + 5, -10 ** 6, 10 ** 9])
    m.check('available_out_of_range', UBreakIterator.get_available(k) is None, k)
    k = rng.randrange(n)
    a = UBreakIterator.get_available(k)
    m.check('available', isinstance(a, str) and a != '' and a.isascii(), (k, a))
    b = UBreakIterator(rng.randrange(4), a, 'x')
    m.check('available_opens', list(b) == ['x'] and b.get_locale_by_type(1) is not None, (k, a))


def case(m, rng, i):
    f = rng.choices([bidi, inverse, breaks, locales], [10, 3, 8, 2])[0]
    m.event(f.__name__)
    f(m, rng)


SPEC = vf.Spec(
    'N04', case, quick=24000, thorough=2000000,
    rule='a state is a vector of bidi levels with its base, a text to be broken, an inverse reordering, or a locale',
    required=['levels', 'logical_run', 'direction', 'visual_runs', 'visual_index', 'logical_index', 'visual_iter',
              'written', 'paragraphs', 'paragraph_level', 'inverse_displays', 'inverse_characters', 'clusters', 'words',
              'lines', 'sentences', 'reversed', 'walk', 'taken', 'language', 'script', 'orientation', 'long_language',
              'available', 'available_out_of_range'],
    anchors=['svgpy/icu.py'])

if __name__ == '__main__':
    vf.main(SPEC)
