"""A small independent reader of TrueType fonts: metrics, character map and outlines."""
import struct


class Font(object):
    def __init__(self, path, index=0):
        self.data = open(path, 'rb').read()
        off = 0
        if self.data[:4] == b'ttcf':
            off = struct.unpack('>I', self.data[12 + 4 * index:16 + 4 * index])[0]
        n = struct.unpack('>H', self.data[off + 4:off + 6])[0]
        self.tables = {}
        for k in range(n):
            tag, _, o, l = struct.unpack('>4sIII', self.data[off + 12 + 16 * k:off + 28 + 16 * k])
            self.tables[tag.decode('latin-1')] = (o, l)
        head = self.table('head')
        self.units = struct.unpack('>H', head[18:20])[0]
        self.bbox = struct.unpack('>4h', head[36:44])
        self.mac_style = struct.unpack('>H', head[44:46])[0]
        self.loc_format = struct.unpack('>h', head[50:52])[0]
        self.glyphs = struct.unpack('>H', self.table('maxp')[4:6])[0]
        hhea = self.table('hhea')
        self.ascender, self.descender, self.line_gap = struct.unpack('>3h', hhea[4:10])
        self.max_advance = struct.unpack('>H', hhea[10:12])[0]
        self.hmetrics = struct.unpack('>H', hhea[34:36])[0]
        self._cmap = None
        self._loca = None

    def table(self, tag):
        o, l = self.tables[tag]
        return self.data[o:o + l]

    def advance(self, gid):
        t = self.table('hmtx')
        k = min(gid, self.hmetrics - 1)
        return struct.unpack('>H', t[4 * k:4 * k + 2])[0]

    def bearing(self, gid):
        t = self.table('hmtx')
        if gid < self.hmetrics:
            return struct.unpack('>h', t[4 * gid + 2:4 * gid + 4])[0]
        o = 4 * self.hmetrics + 2 * (gid - self.hmetrics)
        return struct.unpack('>h', t[o:o + 2])[0]

    @property
    def cmap(self):
        """dict code point -> glyph, of the best Unicode subtable."""
        if self._cmap is not None:
            return self._cmap
        t = self.table('cmap')
        n = struct.unpack('>H', t[2:4])[0]
        best = None
        for k in range(n):
            p, e, o = struct.unpack('>HHI', t[4 + 8 * k:12 + 8 * k])
            fmt = struct.unpack('>H', t[o:o + 2])[0]
            rank = {(3, 10): 4, (0, 4): 3, (0, 6): 3, (3, 1): 2, (0, 3): 1}.get((p, e), 0)
            if fmt in (4, 12) and rank and (best is None or rank > best[0]):
                best = (rank, fmt, o)
        out = {}
        _, fmt, o = best
        if fmt == 12:
            groups = struct.unpack('>I', t[o + 12:o + 16])[0]
            for g in range(groups):
                a, b, s = struct.unpack('>III', t[o + 16 + 12 * g:o + 28 + 12 * g])
                for c in range(a, b + 1):
                    out[c] = s + c - a
        else:
            seg = struct.unpack('>H', t[o + 6:o + 8])[0] // 2
            ends = struct.unpack('>%dH' % seg, t[o + 14:o + 14 + 2 * seg])
            q = o + 16 + 2 * seg
            starts = struct.unpack('>%dH' % seg, t[q:q + 2 * seg])
            deltas = struct.unpack('>%dh' % seg, t[q + 2 * seg:q + 4 * seg])
            r = q + 4 * seg
            offs = struct.unpack('>%dH' % seg, t[r:r + 2 * seg])
            for k in range(seg):
                for c in range(starts[k], ends[k] + 1):
                    if c == 0xffff:
                        continue
                    if offs[k] == 0:
                        g = (c + deltas[k]) & 0xffff
                    else:
                        p = r + 2 * k + offs[k] + 2 * (c - starts[k])
                        g = struct.unpack('>H', t[p:p + 2])[0]
                        if g:
                            g = (g + deltas[k]) & 0xffff
                    if g:
                        out[c] = g
        self._cmap = out
        return out

    def location(self, gid):
        if self._loca is None:
            t = self.table('loca')
            n = self.glyphs + 1
            self._loca = [2 * v for v in struct.unpack('>%dH' % n, t[:2 * n])] if self.loc_format == 0 \
                else list(struct.unpack('>%dI' % n, t[:4 * n]))
        return self._loca[gid], self._loca[gid + 1]

    def outline(self, gid, depth=0):
        """list of contours, each a list of (x, y, on curve), in font units."""
        a, b = self.location(gid)
        if a == b or depth > 8:
            return []
        base = self.tables['glyf'][0]
        d = self.data[base + a:base + b]
        n = struct.unpack('>h', d[:2])[0]
        if n >= 0:
            ends = struct.unpack('>%dH' % n, d[10:10 + 2 * n])
            il = struct.unpack('>H', d[10 + 2 * n:12 + 2 * n])[0]
            p = 12 + 2 * n + il
            total = ends[-1] + 1 if n else 0
            flags = []
            while len(flags) < total:
                f = d[p]
                p += 1
                flags.append(f)
                if f & 8:
                    flags += [f] * d[p]
                    p += 1
            axes = []
            for short, same in ((2, 16), (4, 32)):
                v, vals = 0, []
                for f in flags:
                    if f & short:
                        v += d[p] if f & same else -d[p]
                        p += 1
                    elif not f & same:
                        v += struct.unpack('>h', d[p:p + 2])[0]
                        p += 2
                    vals.append(v)
                axes.append(vals)
            pts = [(axes[0][k], axes[1][k], flags[k] & 1) for k in range(total)]
            out, s = [], 0
            for e in ends:
                out.append(pts[s:e + 1])
                s = e + 1
            return out
        out, p = [], 10
        while True:
            flags, sub = struct.unpack('>HH', d[p:p + 4])
            p += 4
            if flags & 1:
                x, y = struct.unpack('>hh', d[p:p + 4])
                p += 4
            else:
                x, y = struct.unpack('>bb', d[p:p + 2])
                p += 2
            m = [1.0, 0.0, 0.0, 1.0]
            if flags & 8:
                m[0] = m[3] = struct.unpack('>h', d[p:p + 2])[0] / 16384.0
                p += 2
            elif flags & 0x40:
                m[0], m[3] = [v / 16384.0 for v in struct.unpack('>hh', d[p:p + 4])]
                p += 4
            elif flags & 0x80:
                m = [v / 16384.0 for v in struct.unpack('>4h', d[p:p + 8])]
                p += 8
            if not flags & 2:
                return None            # placed by points: not needed here
            part = self.outline(sub, depth + 1)
            if part is None:
                return None
            for c in part:
                out.append([(m[0] * q + m[2] * r + x, m[1] * q + m[3] * r + y, on) for q, r, on in c])
            if not flags & 0x20:
                return out

    def name(self, *ids):
        """The first name of these ids, of the Windows platform."""
        t = self.table('name')
        n, so = struct.unpack('>HH', t[2:6])
        for want in ids:
            for k in range(n):
                plat, enc, lang, nid, length, off = struct.unpack('>6H', t[6 + 12 * k:18 + 12 * k])
                if nid == want and plat == 3 and enc in (1, 10) and lang == 0x409:
                    return t[so + off:so + off + length].decode('utf-16-be')
        return None

    @property
    def kerning(self):
        """dict (left, right) -> units, of the horizontal format 0 subtables of 'kern'."""
        if not hasattr(self, '_kern'):
            out = {}
            if 'kern' in self.tables:
                t = self.table('kern')
                p = 4
                for _ in range(struct.unpack('>H', t[2:4])[0]):
                    _, length, cover = struct.unpack('>HHH', t[p:p + 6])
                    n = struct.unpack('>H', t[p + 6:p + 8])[0]
                    if cover >> 8 == 0 and cover & 1 and not cover & 6:
                        for k in range(n):
                            a, b, v = struct.unpack('>HHh', t[p + 14 + 6 * k:p + 20 + 6 * k])
                            out[a, b] = out.get((a, b), 0) + v
                    p += length if length > 14 + 6 * n - 65536 and length >= 14 + 6 * n else 14 + 6 * n
            self._kern = out
        return self._kern
