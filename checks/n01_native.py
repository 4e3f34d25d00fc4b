"""N01: objects over native libraries stay valid in any order of use and release.

Random histories create and derive objects of the FreeType, HarfBuzz, Fontconfig and ICU bindings, drop the
references in random order (with collections in between), and probe whatever is left against what the font file
says (lib/ttf.py) or what the same object said while everything it was made from was still held.  The workers
run with a poisoned malloc; the parent repeats histories under valgrind's memcheck and counts its reports."""
import gc
import json
import os
import re
import subprocess
import sys
import time
import weakref

import ttf
import vf

FONTS = ['/usr/share/fonts/truetype/dejavu/DejaVuSans.ttf',
         '/usr/share/fonts/truetype/dejavu/DejaVuSansMono.ttf',
         '/usr/share/fonts/truetype/dejavu/DejaVuSerif-Bold.ttf',
         vf.REPO + '/tests/fonts/vazir/Vazir.ttf']
FONTS += [vf.REPO + '/tests/fonts/dejavu/' + n for n in ('DejaVuSans.ttf', 'DejaVuSansMono.ttf')]
FONTS = [p for p in FONTS if os.path.exists(p)]
CHARS = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'
MORE = CHARS + ' .,;:!?%&()\u00e9\u0628\u05d0\u0430\u2603\ue000\U0001f600'
LIGHT = os.environ.get('VERIF_N01_LIGHT')     # the valgrind runs

_cache = {}


def font_of(path):
    if path not in _cache:
        _cache[path] = ttf.Font(path)
    return _cache[path]


def setup(m):
    import svgpy  # noqa: F401
    from svgpy import fontconfig, freetype, harfbuzz, icu  # noqa: F401


def mapped(paths):
    with open('/proc/self/maps') as f:
        text = f.read()
    return [p for p in paths if p in text]


class Face(object):
    """The model of one native FreeType face."""

    def __init__(self, path, memory):
        self.path = path
        self.ttf = font_of(path)
        self.memory = memory
        self.snap = None
        self.size = None
        self.shared = False
        self.loads = 0


def read_metrics(g):
    return (g.width, g.height, g.hori_bearing_x, g.hori_bearing_y, g.hori_advance, g.vert_bearing_x,
            g.vert_bearing_y, g.vert_advance)


def read_outline(o):
    return (o.n_points, o.n_contours, tuple(o.points), tuple(o.tags), tuple(o.contours))


def read_bitmap(b):
    return (b.rows, b.width, b.pitch, b.pixel_mode, tuple(b.buffer))


def read_size(s):
    return (s.x_ppem, s.y_ppem, s.x_scale, s.y_scale, s.ascender, s.descender, s.height, s.max_advance)


def rect(r):
    return (r.x, r.y, r.width, r.height)


class History(object):
    def __init__(self, m, rng):
        self.m = m
        self.rng = rng
        self.pool = []
        self.refs = []
        self.paths = set()
        self.serial = 0

    # --- the pool -----------------------------------------------------------
    def add(self, kind, obj, **model):
        self.serial += 1
        e = dict(kind=kind, obj=obj, id=self.serial, **model)
        self.pool.append(e)
        try:
            self.refs.append((kind, weakref.ref(obj)))
        except TypeError:
            pass
        self.m.event('new', kind, e['id'])
        return e

    def pick(self, *kinds):
        es = [e for e in self.pool if e['kind'] in kinds]
        return self.rng.choice(es) if es else None

    def drop(self, e):
        self.m.event('drop', e['kind'], e['id'])
        self.pool = [x for x in self.pool if x is not e]
        e.clear()

    # --- FreeType -----------------------------------------------------------
    def new_face(self):
        from svgpy.freetype import FTFace
        rng = self.rng
        path = rng.choice(FONTS)
        if rng.random() < .5:
            o = FTFace.new_face(path)
            self.paths.add(path)
            F = Face(path, False)
        else:
            data = open(path, 'rb').read()
            o = FTFace.new_memory_face(data)
            del data
            F = Face(path, True)
        return self.add('face', o, F=F)

    def set_size(self):
        e = self.pick('face')
        if e is None or e['F'].shared:
            return
        rng = self.rng
        n = rng.randint(6, 40)
        o, F = e['obj'], e['F']
        how = rng.randrange(3)
        if how == 0:
            o.set_char_size(0, n * 64, 72, 72)
        elif how == 1:
            o.set_pixel_sizes(0, n)
        else:
            o.set_char_size(n * 64, n * 64)
        F.size = n
        F.snap = None
        F.sizesnap = read_size(o.size.metrics)
        self.m.check('size_is_asked', F.sizesnap[:2] == (n, n), lambda: (F.sizesnap, n))

    def load(self):
        from svgpy.freetype import FreeType
        e = self.pick('face')
        if e is None:
            return
        rng = self.rng
        o, F = e['obj'], e['F']
        c = rng.choice(MORE)
        flags = rng.choice([FreeType.FT_LOAD_NO_SCALE, FreeType.FT_LOAD_NO_SCALE, FreeType.FT_LOAD_NO_HINTING,
                            FreeType.FT_LOAD_DEFAULT, FreeType.FT_LOAD_RENDER])
        if F.size is None:
            flags = FreeType.FT_LOAD_NO_SCALE
        gid = F.ttf.cmap.get(ord(c), 0)
        self.m.eq('char_index', o.get_char_index(c), gid, lambda: (F.path, c))
        if rng.random() < .5:
            o.load_char(c, flags)
        else:
            o.load_glyph(gid, flags)
        F.loads += 1
        self.m.event('load', e['id'], c, flags)
        g = o.glyph
        F.snap = {'metrics': read_metrics(g.metrics), 'outline': read_outline(g.outline),
                  'bitmap': read_bitmap(g.bitmap), 'format': g.format, 'bbox': rect(g.outline.get_bbox()),
                  'advance': g.advance, 'gid': gid, 'raw': flags == FreeType.FT_LOAD_NO_SCALE}
        contours = F.ttf.outline(gid)
        if F.snap['raw'] and contours is not None:
            self.m.eq('raw_advance', g.metrics.hori_advance, F.ttf.advance(gid), lambda: (F.path, c, gid))
            want = [(x, y, on) for contour in contours for x, y, on in contour]
            got = [(x, y, bool(t & 1)) for (x, y), t in zip(g.outline.points, g.outline.tags)]
            self.m.check('raw_outline', len(got) == len(want) and all(
                abs(x - u) <= 2 and abs(y - v) <= 1 and on == bool(k) for (x, y, on), (u, v, k) in zip(got, want)),
                lambda: (F.path, c, gid, got, want))
        if flags == FreeType.FT_LOAD_RENDER and F.snap['bitmap'][0]:
            self.m.check('rendered_has_ink', any(F.snap['bitmap'][4]), lambda: (F.path, c))

    def derive(self):
        e = self.pick('face', 'slot', 'size')
        if e is None:
            return
        rng, o, F = self.rng, e['obj'], e['F']
        if e['kind'] == 'face':
            what = rng.choice(['slot', 'slot', 'outline', 'metrics', 'bitmap', 'size', 'sizem', 'charmap', 'charmaps',
                               'reference'])
            if what == 'slot':
                self.add('slot', o.glyph, F=F)
            elif what == 'outline':
                self.add('outline', o.glyph.outline, F=F)
            elif what == 'metrics':
                self.add('metrics', o.glyph.metrics, F=F)
            elif what == 'bitmap':
                self.add('bitmap', o.glyph.bitmap, F=F)
            elif what == 'size':
                self.add('size', o.size, F=F)
            elif what == 'sizem':
                self.add('sizem', o.size.metrics, F=F)
            elif what == 'charmap':
                cm = o.charmap
                self.add('charmap', cm, F=F, want=(cm.encoding, cm.platform_id, cm.encoding_id))
            elif what == 'charmaps':
                cms = o.charmaps
                cm = rng.choice(cms)
                self.add('charmap', cm, F=F, want=(cm.encoding, cm.platform_id, cm.encoding_id))
            else:
                if F.memory:
                    return
                from svgpy.freetype import FTFace
                # a second wrapper of the same native face, with a reference of its own
                self.add('face', FTFace(o.ft_face, reference=True), F=F)
        elif e['kind'] == 'slot':
            what = rng.choice(['outline', 'metrics', 'bitmap'])
            self.add(what, getattr(o, what), F=F)
        else:
            self.add('sizem', o.metrics, F=F)

    # --- HarfBuzz -----------------------------------------------------------
    def new_blob(self):
        from svgpy.harfbuzz import HBBlob
        rng = self.rng
        path = rng.choice(FONTS)
        data = open(path, 'rb').read()
        mode = rng.choice([1, 2, 2, 4])
        o = HBBlob.create(data, mode=mode)
        del data
        self.add('blob', o, path=path)

    def hb_face(self):
        from svgpy.harfbuzz import HBFace, HBFTFace
        if self.rng.random() < .7:
            e = self.pick('blob')
            if e is None:
                return self.new_blob()
            self.add('hbface', HBFace.create(e['obj']), path=e['path'])
        else:
            e = self.pick('face')
            if e is None:
                return
            self.add('hbface', HBFTFace.create(e['obj']), path=e['F'].path)

    def hb_font(self):
        from svgpy.harfbuzz import HBFont, HBFTFont, HBOTFont
        rng = self.rng
        if rng.random() < .6:
            e = self.pick('hbface')
            if e is None:
                return self.hb_face()
            o = HBFont.create(e['obj'])
            HBOTFont.set_funcs(o)
            scale = None
            if rng.random() < .4:
                scale = rng.randint(100, 5000)
                o.set_scale(scale, scale)
            self.add('hbfont', o, path=e['path'], scale=scale)
        else:
            e = self.pick('face')
            if e is None or e['F'].size is None:
                return
            F = e['F']
            F.shared = True               # its size stays what it is now
            F.snap = None
            o = HBFTFont.create(e['obj'])
            text = ''.join(rng.choice(CHARS) for _ in range(6))
            self.add('hbftfont', o, F=F, path=F.path, text=text, want=self.shape(o, text))

    def hb_derive(self):
        from svgpy.harfbuzz import HBFont
        e = self.pick('hbfont', 'hbftfont', 'hbface')
        if e is None:
            return
        o, rng = e['obj'], self.rng
        if e['kind'] == 'hbface':
            self.add('blob', o.reference_blob(), path=e['path'])
        elif e['kind'] == 'hbftfont':
            if rng.random() < .6:
                self.add('face', o.get_face(), F=e['F'])
            else:
                self.add('hbface', HBFont.get_face(o), path=e['path'])
        else:
            self.add('hbface', o.get_face(), path=e['path'])

    def hb_set_face(self):
        e = self.pick('hbfont', 'hbftfont')
        f = self.pick('hbface')
        if e is None or f is None:
            return
        if e['kind'] == 'hbftfont' and e['path'] != f['path']:
            return
        e['obj'].set_face(f['obj'])
        e['path'] = f['path']
        if e['kind'] == 'hbfont':
            from svgpy.harfbuzz import HBOTFont
            units = font_of(f['path']).units
            HBOTFont.set_funcs(e['obj'])
            e['scale'] = units
            e['obj'].set_scale(units, units)

    def shape(self, font, text):
        from svgpy.harfbuzz import HBBuffer, HBDirection, HBFeature, HBLanguage, HBScript
        b = HBBuffer.create()
        how = self.rng.randrange(3)
        (b.add_utf8, b.add_utf16, b.add_utf32)[how](text)
        b.set_direction(HBDirection(HBDirection.HB_DIRECTION_LTR))
        b.set_script(HBScript.fromstring('Latn'))
        b.set_language(HBLanguage.fromstring('en'))
        feats = [HBFeature.fromstring(t) for t in ('-kern', '-liga', '-calt', '-clig', '-dlig', '-ccmp', '-locl')]
        b.shape(font, feats)
        infos, pos = b.get_glyph_infos(), b.get_glyph_positions()
        if self.rng.random() < .4:
            self.add('buffer', b, want=([i.codepoint for i in infos], [p.x_advance for p in pos]))
        return [i.codepoint for i in infos], [p.x_advance for p in pos]

    # --- the others ---------------------------------------------------------
    def fontconfig(self):
        from svgpy.fontconfig import FontConfig
        rng = self.rng
        pat = rng.choice([':family=DejaVu Sans', ':family=DejaVu Serif:weight=200', 'DejaVu Sans Mono', ':family=nope'])
        got = [FontConfig.match(pat) for _ in range(rng.randint(1, 3))]
        self.m.check('match_stable', all(g == got[0] for g in got) and len(got[0]) == 1, lambda: (pat, got))
        self.m.check('match_family', pat == ':family=nope' or 'DejaVu' in got[0][0], lambda: (pat, got[0]))
        if not LIGHT or rng.random() < .3:
            a = FontConfig.list(':family=DejaVu Sans')
            self.m.check('list_stable', a == FontConfig.list(':family=DejaVu Sans') and len(a) > 0, lambda: a)

    TEXT = ['abc \u05d0\u05d1\u05d2 12', 'e\u0301a\U0001f600 b.', '\u0628\u0631 x y', 'One two. Three four?', 'a\0b c']

    def icu(self):
        from svgpy.icu import UBiDi, UBreakIterator
        rng = self.rng
        text = ''.join(rng.choice(self.TEXT) for _ in range(rng.randint(1, 3)))
        if rng.random() < .5:
            o = UBiDi()
            for _ in range(rng.randint(1, 2)):
                o.set_para(text, rng.choice([0, 1, 0xfe, 0xff]))
            self.add('bidi', o, text=text, want=(list(o.visual_iter()), o.write_reordered(), o.count_runs()))
        else:
            o = UBreakIterator(rng.randrange(4), rng.choice(['en', 'ja', 'ar']), text)
            if rng.random() < .5:
                text = rng.choice(self.TEXT) * rng.randint(1, 3)
                o.set_text(text)
            self.add('break', o, text=text, want=list(o))

    # --- probing ------------------------------------------------------------
    def probe(self, e):
        m, o, k = self.m, e['obj'], e['kind']
        F = e.get('F')
        snap = F.snap if F else None
        ctx = lambda: dict(kind=k, id=e['id'], font=e.get('path') or (F and F.path))  # noqa: E731
        if k == 'face':
            m.eq('face_answers', (o.num_glyphs, o.units_per_em, o.family_name is not None),
                 (F.ttf.glyphs, F.ttf.units, True), ctx)
            c = self.rng.choice(CHARS)
            m.eq('face_maps', o.get_char_index(c), F.ttf.cmap.get(ord(c), 0), ctx)
        elif k == 'slot':
            got = (o.format, read_metrics(o.metrics), o.advance)
            if snap:
                m.eq('slot_answers', got, (snap['format'], snap['metrics'], snap['advance']), ctx)
        elif k == 'metrics':
            got = read_metrics(o)
            if snap:
                m.eq('metrics_answer', got, snap['metrics'], ctx)
        elif k == 'outline':
            got = read_outline(o), rect(o.get_bbox())
            if snap:
                m.eq('outline_answers', got, (snap['outline'], snap['bbox']), ctx)
        elif k == 'bitmap':
            got = read_bitmap(o)
            if snap:
                m.eq('bitmap_answers', got, snap['bitmap'], ctx)
        elif k in ('size', 'sizem'):
            got = read_size(o.metrics if k == 'size' else o)
            if F.size is not None:
                m.eq('size_answers', got, F.sizesnap, ctx)
        elif k == 'charmap':
            m.eq('charmap_answers', (o.encoding, o.platform_id, o.encoding_id), e['want'], ctx)
        elif k == 'blob':
            f = font_of(e['path'])
            data = o.get_data()
            m.check('blob_answers', data == f.data and o.get_length() == len(f.data), ctx)
        elif k == 'hbface':
            f = font_of(e['path'])
            m.eq('hbface_answers', (o.get_upem(), o.get_glyph_count()), (f.units, f.glyphs), ctx)
        elif k == 'hbfont':
            f = font_of(e['path'])
            scale = e['scale'] or f.units
            text = ''.join(self.rng.choice(CHARS) for _ in range(5))
            gids, adv = self.shape(o, text)
            want = [f.cmap[ord(c)] for c in text]
            m.eq('hbfont_glyphs', gids, want, ctx)
            m.check('hbfont_advances', all(abs(a - f.advance(g) * scale / f.units) <= 1 for a, g in zip(adv, want)),
                    lambda: (ctx(), adv, [f.advance(g) * scale / f.units for g in want]))
            c = self.rng.choice(MORE)
            m.eq('hbfont_maps', o.get_glyph(ord(c)), f.cmap.get(ord(c), 0), ctx)
        elif k == 'hbftfont':
            F.snap = None
            m.eq('hbftfont_shapes', self.shape(o, e['text']), e['want'], ctx)
        elif k == 'buffer':
            m.eq('buffer_answers', ([i.codepoint for i in o.get_glyph_infos()],
                                    [p.x_advance for p in o.get_glyph_positions()]), e['want'], ctx)
        elif k == 'bidi':
            m.eq('bidi_answers', (list(o.visual_iter()), o.write_reordered(), o.count_runs()), e['want'], ctx)
            m.eq('bidi_text', o.get_text(), e['text'], ctx)
        elif k == 'break':
            m.eq('break_answers', list(o), e['want'], ctx)
            m.eq('break_covers', ''.join(o), e['text'], ctx)

    def run(self):
        rng, m = self.rng, self.m
        ops = [(self.new_face, 4), (self.set_size, 4), (self.load, 6), (self.derive, 10), (self.new_blob, 2),
               (self.hb_face, 3), (self.hb_font, 4), (self.hb_derive, 4), (self.hb_set_face, 1), (self.icu, 3)]
        fns = [f for f, _ in ops]
        weights = [w for _, w in ops]
        trace = []
        self.new_face()
        for _ in range(rng.randint(10, 40)):
            r = rng.random()
            if r < .55:
                f = rng.choices(fns, weights)[0]
                trace.append(f.__name__)
                f()
            elif r < .58 and (not LIGHT or rng.random() < .2):
                self.fontconfig()
            elif r < .8 and self.pool:
                e = rng.choice(self.pool)
                trace.append('drop ' + e['kind'])
                self.drop(e)
                e = None
                if rng.random() < .7:
                    gc.collect(0 if LIGHT else 1)
            elif self.pool:
                self.probe(rng.choice(self.pool))
        e = None
        # everything goes, in a random order; what is left still answers
        while self.pool:
            if rng.random() < .5:
                self.probe(rng.choice(self.pool))
            self.drop(rng.choice(self.pool))
        gc.collect()
        left = [k for k, r in self.refs if r() is not None]
        m.check('objects_released', not left, lambda: left)
        m.check('files_unmapped', not mapped(self.paths), lambda: mapped(self.paths))
        kinds = [k for k, _ in self.refs]
        m.state(tuple(trace), tuple(kinds))
        for k in set(kinds):
            m.state('kind', k)


def case(m, rng, i):
    h = History(m, rng)
    try:
        h.run()
    finally:
        h.pool = []
        gc.collect(0)
    if i < 3:
        m.sample({'objects': [k for k, _ in h.refs]})


# --- memcheck ------------------------------------------------------------------
NATIVE = re.compile(r'libfreetype|libharfbuzz|libfontconfig|libicu|_cffi_backend|libffi')
BAD = re.compile(r'==\d+== (Invalid (?:read|write|free)|Mismatched free|Jump to the invalid|Process terminating'
                 r'|Source and destination overlap)')


def reports(text):
    """The error records of a memcheck log that involve the native libraries."""
    out = []
    for block in re.split(r'\n==\d+== \n', text):
        hit = BAD.search(block)
        if hit and (NATIVE.search(block) or 'Process terminating' in block):
            out.append((hit.group(1), block))
    return out


def post(tier, seed, scratch):
    procs, cases = (5, 24) if tier == 'quick' else (8, 700)
    limit = 420 if tier == 'quick' else 3000
    script = os.path.abspath(__file__)
    running = []
    for p in range(procs):
        log, out = (os.path.join(scratch, 'vg%d.%s' % (p, x)) for x in ('log', 'json'))
        err = open(out + '.err', 'w')
        running.append((subprocess.Popen(
            ['valgrind', '-q', '--undef-value-errors=no', '--num-callers=24', '--log-file=' + log, vf.PY, script,
             '--tier', tier, '--seed', str(seed * 100 + p + 1), '--shard', '1', '--shards', '2', '--cases',
             str(2 * cases), '--out', out, '--deadline', str(limit)],
            env=vf.child_env({'PYTHONMALLOC': 'malloc', 'VERIF_N01_LIGHT': '1'}), stdout=err, stderr=err,
            cwd=scratch, start_new_session=True), log, out, seed * 100 + p + 1))
    violations, broken, counts, distinct, done = [], [], {}, set(), 0
    end = time.monotonic() + limit + 120
    for p, log, out, s in running:
        try:
            p.wait(timeout=max(1, end - time.monotonic()))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.wait()
            broken.append('memcheck run timed out')
        text = open(log, errors='replace').read() if os.path.exists(log) else ''
        label = open(out + '.progress').read().strip() if os.path.exists(out + '.progress') else ''
        recs = reports(text)
        if recs:
            violations.append({'property': 'N01', 'case': 'memcheck ' + label, 'seed': s,
                               'key': 'memcheck:' + recs[0][0],
                               'detail': {'reports': len(recs), 'first': recs[0][1][-3000:]}, 'events': []})
        if os.path.exists(out):
            with open(out) as f:
                r = json.load(f)
            violations += r['violations']
            done += r['done']
            distinct.update(r['distinct'])
            for k, n in r['counts'].items():
                counts['memcheck:' + k] = counts.get('memcheck:' + k, 0) + n
            counts['memcheck_histories'] = counts.get('memcheck_histories', 0) + r['done']
        elif not recs:
            broken.append('memcheck run gave no result: rc=%s %s %s'
                          % (p.returncode, text[-800:], open(out + '.err', errors='replace').read()[-800:]))
    return violations, {'counts': counts, 'distinct': sorted(distinct), 'done': done}, broken


SPEC = vf.Spec(
    'N01', case, quick=1600, thorough=60000, setup=setup, post=post,
    env={'PYTHONMALLOC': 'malloc', 'MALLOC_PERTURB_': '165'},
    rule='a state is the sequence of operations of one history of native objects with the kinds it created, or a kind '
         'of object used after its sources were dropped',
    required=['face_answers', 'slot_answers', 'metrics_answer', 'outline_answers', 'bitmap_answers', 'size_answers',
              'charmap_answers', 'blob_answers', 'hbface_answers', 'hbfont_glyphs', 'hbftfont_shapes',
              'buffer_answers', 'bidi_answers', 'break_answers', 'raw_outline', 'match_stable', 'objects_released',
              'files_unmapped', 'memcheck_histories'],
    anchors=['svgpy/freetype.py', 'svgpy/harfbuzz.py', 'svgpy/fontconfig.py', 'svgpy/icu.py'],
    assumptions=['undefined values are not tracked by memcheck (--undef-value-errors=no); invalid accesses and frees '
                 'are', 'one thread at a time: FreeType faces of one library are not promised to be thread-safe'],
    case_timeout=120)

if __name__ == '__main__':
    vf.main(SPEC)
