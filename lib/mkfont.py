"""Writes small TrueType fonts: boxes for glyphs, any names, style numbers, metrics and characters."""
import struct


def table_sum(data):
    data += b'\0' * (-len(data) % 4)
    return sum(struct.unpack('>%dI' % (len(data) // 4), data)) & 0xffffffff


def names(family, style, extra=()):
    rec = []
    ids = [(1, family), (2, style), (3, 'verif ' + family + ' ' + style), (4, family + ' ' + style), (5, 'Version 1.0'),
           (6, (family + '-' + style).replace(' ', '')), (16, family), (17, style)] + list(extra)
    store = b''
    out = b''
    for nid, text in sorted(ids):
        raw = text.encode('utf-16-be')
        rec.append((3, 1, 0x409, nid, len(raw), len(store)))
        store += raw
    for r in rec:
        out += struct.pack('>6H', *r)
    return struct.pack('>3H', 0, len(rec), 6 + 12 * len(rec)) + out + store


def cmap4(chars):
    """chars: {code point < 0xffff: glyph}"""
    segs = []
    for c in sorted(chars):
        if segs and segs[-1][1] == c - 1 and chars[c] - c == segs[-1][2]:
            segs[-1][1] = c
        else:
            segs.append([c, c, chars[c] - c])
    segs.append([0xffff, 0xffff, 1])
    n = len(segs)
    p = 1
    while p * 2 <= n:
        p *= 2
    log = p.bit_length() - 1
    body = struct.pack('>4H', 2 * n, 2 * p, log, 2 * n - 2 * p)
    body += b''.join(struct.pack('>H', s[1]) for s in segs) + b'\0\0'
    body += b''.join(struct.pack('>H', s[0]) for s in segs)
    body += b''.join(struct.pack('>H', s[2] & 0xffff) for s in segs)
    body += b'\0\0' * n
    sub = struct.pack('>3H', 4, 6 + len(body), 0) + body
    return struct.pack('>HHHHI', 0, 1, 3, 1, 12) + sub


def kern(pairs):
    """{(left glyph, right glyph): units}"""
    n = len(pairs)
    p = 1
    while p * 2 <= n:
        p *= 2
    body = struct.pack('>4H', n, 6 * p, p.bit_length() - 1, 6 * (n - p))
    body += b''.join(struct.pack('>HHh', a, b, v) for (a, b), v in sorted(pairs.items()))
    return struct.pack('>HHHHH', 0, 1, 0, 6 + len(body), 1) + body


def lookup(subst):
    """A lookup: {glyph: alternate} (single), {glyph: [alternates]} or {(glyphs...): ligature}."""
    first = next(iter(subst))
    if isinstance(first, tuple):
        heads = sorted({k[0] for k in subst})
        sets = []
        for h in heads:
            ligs = [struct.pack('>HH', v, len(k)) + struct.pack('>%dH' % (len(k) - 1), *k[1:])
                    for k, v in sorted(subst.items(), key=lambda kv: -len(kv[0])) if k[0] == h]
            at = 2 + 2 * len(ligs)
            out = struct.pack('>H', len(ligs))
            for x in ligs:
                out += struct.pack('>H', at)
                at += len(x)
            sets.append(out + b''.join(ligs))
        kind, keys = 4, heads
    elif isinstance(subst[first], list):
        keys = sorted(subst)
        sets = [struct.pack('>%dH' % (1 + len(subst[k])), len(subst[k]), *subst[k]) for k in keys]
        kind = 3
    else:
        keys = sorted(subst)
        sets = None
        kind = 1
    n = len(keys)
    cover = struct.pack('>%dH' % (2 + n), 1, n, *keys)
    if kind == 1:
        sub = struct.pack('>%dH' % (3 + n), 2, 6 + 2 * n, n, *[subst[k] for k in keys]) + cover
    else:
        at = 6 + 2 * n
        offs = []
        for x in sets:
            offs.append(at)
            at += len(x)
        sub = struct.pack('>%dH' % (3 + n), 1, at, n, *offs) + b''.join(sets) + cover
    return struct.pack('>4H', kind, 0, 1, 8) + sub


def gsub(features, langs=None):
    """features: [(tag, subst)]; langs: {language system tag: [(tag, subst)]} besides them."""
    every = [(t, s, None) for t, s in features] + [(t, s, k) for k, v in sorted((langs or {}).items()) for t, s in v]
    order = sorted(range(len(every)), key=lambda i: every[i][0])
    tables = [lookup(every[i][1]) for i in order]
    at = 2 + 2 * len(tables)
    look = struct.pack('>H', len(tables))
    for t in tables:
        look += struct.pack('>H', at)
        at += len(t)
    look += b''.join(tables)
    feat = struct.pack('>H', len(order))
    at = 2 + 6 * len(order)
    for i in order:
        feat += every[i][0].encode() + struct.pack('>H', at)
        at += 6
    for k in range(len(order)):
        feat += struct.pack('>3H', 0, 1, k)

    def langsys(lang):
        use = [k for k, i in enumerate(order) if every[i][2] in (None, lang)]
        return struct.pack('>%dH' % (3 + len(use)), 0, 0xffff, len(use), *use)
    tags = sorted(langs or {})
    systems = [langsys(None)] + [langsys(t) for t in tags]
    at = 4 + 6 * len(tags)
    script = struct.pack('>HH', at, len(tags))
    at += len(systems[0])
    for t, x in zip(tags, systems[1:]):
        script += t.encode() + struct.pack('>H', at)
        at += len(x)
    script += b''.join(systems)
    scripts = struct.pack('>H', 2) + b'DFLT' + struct.pack('>H', 14) + b'latn' + struct.pack('>H', 14) + script
    return struct.pack('>5H', 1, 0, 10, 10 + len(scripts), 10 + len(scripts) + len(feat)) + scripts + feat + look


def box(x0, y0, x1, y1):
    """A rectangle, clockwise."""
    head = struct.pack('>5h', 1, x0, y0, x1, y1)
    pts = [(x0, y0), (x0, y1), (x1, y1), (x1, y0)]
    data = head + struct.pack('>HH', 3, 0) + bytes([1, 1, 1, 1])
    px = py = 0
    xs = ys = b''
    for x, y in pts:
        xs += struct.pack('>h', x - px)
        ys += struct.pack('>h', y - py)
        px, py = x, y
    data += xs + ys
    return data + b'\0' * (-len(data) % 4)


def make(path, family, style, glyphs, weight=400, width=5, italic=False, oblique=False, units=1000, ascender=800,
         descender=-200, gap=0, bold=None, extra=None):
    """glyphs: {character: (advance, box or None)}, characters from U+F000 having no code; extra(order): more tables; glyph 0 is an empty box of half an em."""
    order = [None] + sorted(glyphs)
    boxes, metrics, loca = b'', b'', [0]
    xmin = ymin = 10 ** 6
    xmax = ymax = -10 ** 6
    most = 0
    for c in order:
        adv, b = glyphs[c] if c is not None else (units // 2, (10, 0, units // 3, units // 3))
        most = max(most, adv)
        if b is not None:
            boxes += box(*b)
            xmin, ymin, xmax, ymax = min(xmin, b[0]), min(ymin, b[1]), max(xmax, b[2]), max(ymax, b[3])
        loca.append(len(boxes))
        metrics += struct.pack('>Hh', adv, b[0] if b else 0)
    n = len(order)
    if bold is None:
        bold = weight >= 700
    mac = (1 if bold else 0) | (2 if italic or oblique else 0)
    sel = (1 if italic or oblique else 0) | (32 if bold else 0)
    if not sel and weight == 400:
        sel = 64
    if oblique:
        sel |= 0x200
    head = struct.pack('>IIIIHHQQ4hHHhhh', 0x10000, 0x10000, 0, 0x5f0f3cf5, 0, units, 0, 0, xmin, ymin, xmax, ymax, mac, 8,
                       2, 1, 0)
    hhea = struct.pack('>IhhhH11hH', 0x10000, ascender, descender, gap, most, 0, 0, xmax, 1, 0, 0, 0, 0, 0, 0, 0, n)
    maxp = struct.pack('>IH13H', 0x10000, n, 4, 1, 0, 0, 1, 0, 0, 0, 0, 0, 16, 0, 0)  # instructions: no autohinter
    codes = [ord(c) for c in order[1:] if c < '\uf000']
    os2 = struct.pack('>HhHHH11h10s4I4sHHHhhhHHIIhhHHH', 4, units // 2, weight, width, 0,
                      650, 600, 0, 75, 650, 600, 0, 350, 50, 300, 0, b'\0' * 10,
                      1, 0, 0, 0, b'VERF', sel, min(codes), max(codes), ascender, descender, gap, ascender, -descender,
                      1, 0, units // 2, units * 7 // 10, 0, 32, 1)
    tables = {
        b'head': head, b'hhea': hhea, b'maxp': maxp, b'OS/2': os2, b'hmtx': metrics,
        b'cmap': cmap4({ord(c): k for k, c in enumerate(order) if c is not None and c < '\uf000'}),
        b'loca': struct.pack('>%dI' % len(loca), *loca), b'glyf': boxes,
        b'name': names(family, style), b'post': struct.pack('>IIhhIIIII', 0x30000, 0, -100, 50, 0, 0, 0, 0, 0),
    }
    if extra:
        tables.update(extra(order))
    k = len(tables)
    p = 1
    while p * 2 <= k:
        p *= 2
    out = struct.pack('>IHHHH', 0x10000, k, 16 * p, p.bit_length() - 1, 16 * (k - p))
    at = 12 + 16 * k
    body = b''
    for tag in sorted(tables):
        data = tables[tag]
        out += tag + struct.pack('>III', table_sum(data), at + len(body), len(data))
        body += data + b'\0' * (-len(data) % 4)
    with open(path, 'wb') as f:
        f.write(out + body)
