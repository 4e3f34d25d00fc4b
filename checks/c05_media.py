"""C05: media queries against the window and screen; media lists."""
import tempfile
import os
import shutil
from fractions import Fraction

import vf
from svgpy.css import MediaList
from svgpy.window import SVGDOMImplementation, Window

TYPES = ['all', 'screen', 'print', 'speech', 'projection', 'bogus']
PX = {'px': 1.0, 'em': 16.0, 'rem': 16.0, 'in': 96.0, 'cm': 96 / 2.54, 'mm': 96 / 25.4, 'pt': 96 / 72, 'pc': 16.0}
GAMUTS = ['srgb', 'p3', 'rec2020']


class Env(object):
    """The window, and what the media features are: width and height are those of the document element's viewport."""
    root = (None, None)

    @property
    def width(self):
        w = self.root[0]
        return self.inner_width if w is None else self.inner_width * w / 100 if isinstance(w, float) else w

    @property
    def height(self):
        h = self.root[1]
        return self.inner_height if h is None else self.inner_height * h / 100 if isinstance(h, float) else h

    def __init__(self, rng):
        self.win = Window(SVGDOMImplementation())
        self.change(rng, all_=True)

    def change(self, rng, all_=False):
        s = self.win.screen
        def want():
            return all_ or rng.random() < 0.4
        if want():
            self.inner_width = self.win.inner_width = rng.choice([1280, 640, 400, 401, 16, 1, 1920, 720])
        if want():
            self.inner_height = self.win.inner_height = rng.choice([720, 640, 400, 9, 1, 1080])
        if want():
            self.sw = s.width = rng.choice([1280, 800, 600, 1])
        if want():
            self.sh = s.height = rng.choice([720, 600, 800, 1])
        if want():
            self.color = s.color_depth = rng.choice([24, 8, 4, 0, 1])
        if want():
            self.mono = s.monochrome = rng.choice([0, 0, 2, 8])
        if want():
            self.media = s.media = rng.choice(['screen', 'screen', 'print', 'speech', 'projection'])
        if want():
            self.scan = s.scan = rng.choice(['progressive', 'interlace'])
        if want():
            self.update = s.update = rng.choice(['none', 'slow', 'fast'])
        if want():
            self.gamut = s.color_gamut = rng.choice(GAMUTS)
        if want():
            a = rng.choice([0, 90, 180, 270, 360, -90, 450, 100, 89])
            s.orientation.angle = a
            self.angle = a // 90 * 90 % 360
        if want():
            self.dpr = s.device_pixel_ratio = rng.choice([1, 2, 0.5, 4])
        if want():
            self.zoom = self.win.page_zoom_scale = rng.choice([1, 2, 0.25])

    @property
    def orientation(self):
        flat = self.sw > self.sh
        turned = self.angle in (90, 270)
        return 'landscape' if flat != turned else 'portrait'

    @property
    def orientation_type(self):
        return self.orientation + ('-primary' if self.angle in (0, 90) else '-secondary')

    def number(self, name):
        return {'width': self.width, 'height': self.height, 'device-width': self.sw, 'device-height': self.sh, 'color': self.color,
                'color-index': 1 << self.color, 'monochrome': self.mono, 'resolution': self.dpr * self.zoom,
                'aspect-ratio': Fraction(int(self.width), int(self.height)) if int(self.height) else None, 'device-aspect-ratio': Fraction(self.sw, self.sh)}[name]


def compare(a, op, b):
    if a is None or b is None:
        return False
    return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '=': a == b}[op]


def value(rng, env, name, spaced=False):
    """(text, number as a function of the environment) of a value."""
    t, n = number(rng, env, name, spaced)
    return t, n if callable(n) else lambda e: n


def number(rng, env, name, spaced=False):
    """(text, number) of a value to compare the feature with; never within rounding of it unless exact."""
    x = env.number(name)
    if name in ('width', 'height', 'device-width', 'device-height'):
        if rng.random() < 0.08:
            t, n = rng.choice([('0', 0), ('-100px', -100), ('-1e3px', -1000), ('0px', 0)])
            return t, n
        unit = rng.choice(['px', 'px', 'px', 'em', 'rem', 'in', 'cm', 'mm', 'pt', 'pc', 'vw', 'vh', 'vmin', 'vmax'])
        if unit == 'px':
            n = int(x) + rng.choice([0, 0, 1, -1, 100, -100])
            return '%dpx' % n, n
        if unit in ('em', 'rem') and x % 16 == 0:
            n = int(x // 16) + rng.choice([0, 0, 1, -1])
            return '%d%s' % (n, unit), n * 16
        def ratio(e):
            return PX.get(unit) or {'vw': e.width, 'vh': e.height, 'vmin': min(e.width, e.height),
                                    'vmax': max(e.width, e.height)}[unit] / 100
        n = round(x / ratio(env) * rng.choice([0.53, 1.97, 1.23, 0.81]), 4) if x and ratio(env) else 3.1
        return '%s%s' % (n, unit), lambda e: n * ratio(e)
    if name.endswith('aspect-ratio'):
        x = x or Fraction(1)
        r = rng.choice([x, x, Fraction(16, 9), Fraction(4, 3), Fraction(1), x * Fraction(101, 100), x / 2])
        k = rng.choice([1, 1, 2, 3])
        if r.denominator == 1 and rng.random() < 0.4:
            return '%d' % r.numerator, r
        sep = ' / ' if spaced and rng.random() < 0.3 else '/'
        return '%d%s%d' % (r.numerator * k, sep, r.denominator * k), r
    if name == 'resolution':
        if rng.random() < 0.5:
            n = x * rng.choice([1, 1, 2, 0.5])
            return '%sdppx' % n, n
        if rng.random() < 0.6:
            n = x * rng.choice([1, 2, 0.5, 3])
            return '%gdpi' % (n * 96), n
        n = x * rng.choice([0.5, 2, 0.9, 1.1])
        return '%.6fdpcm' % (n * 96 / 2.54), n
    n = x + rng.choice([0, 0, 1, -1, 5])
    return '%d' % n, n


RANGES = ['width', 'height', 'width', 'height', 'aspect-ratio', 'device-width', 'device-height', 'device-aspect-ratio', 'color', 'color-index',
          'monochrome', 'resolution']


def ws(rng):
    return rng.choice(['', '', '', ' ', '\n ', '\t'])


def feature(rng, env):
    """(text without parentheses, function of the environment, kind)."""
    r = rng.random()
    if r < 0.2:
        name = rng.choice(['orientation', 'scan', 'update', 'grid', 'color-gamut'])
        if name == 'orientation':
            v = rng.choice(['landscape', 'portrait', 'landscape-primary', 'portrait-secondary'])
            return 'orientation:%s%s' % (ws(rng), v), lambda e: (e.orientation_type if '-' in v else e.orientation) == v, 'discrete'
        if name == 'scan':
            v = rng.choice(['interlace', 'progressive'])
            return 'scan:%s%s' % (ws(rng), v), lambda e: e.scan == v, 'discrete'
        if name == 'update':
            v = rng.choice(['none', 'slow', 'fast'])
            return 'update%s:%s' % (ws(rng), v), lambda e: e.update == v, 'discrete'
        if name == 'grid':
            v = rng.choice(['0', '1'])
            return 'grid:%s%s' % (ws(rng), v), lambda e: v == '0', 'discrete'
        v = 'rec2020'           # the widest gamut: only devices that have it match
        return 'color-gamut:%s' % v, lambda e: e.gamut == v, 'discrete'
    if r < 0.38:
        name = rng.choice(['width', 'height', 'color', 'monochrome', 'resolution', 'grid', 'update', 'orientation', 'scan', 'color-gamut',
                           'aspect-ratio', 'color-index', 'device-width', 'weight', 'min-width', 'hover'])
        f = {'color': lambda e: e.color > 0, 'monochrome': lambda e: e.mono > 0, 'grid': lambda e: False,
             'update': lambda e: e.update != 'none', 'weight': lambda e: False, 'min-width': lambda e: False,
             'hover': lambda e: False, 'aspect-ratio': lambda e: e.number('aspect-ratio') is not None}.get(name, lambda e: True)
        return ws(rng) + name + ws(rng), f, 'boolean'
    if r < 0.42:
        t = rng.choice(['max-weight: 3000', 'min-orientation: portrait', 'min-grid: 0', 'weight > 1', 'width: 3furlong', 'color: 2x',
                        'width: red', 'aspect-ratio: red', 'max-aspect-ratio: 1/0', 'width < red', 'resolution: 1px'])
        return t, lambda e: False, 'unknown'
    name = rng.choice(RANGES)
    t, v = value(rng, env, name, True)
    if r < 0.7:
        prefix = rng.choice(['min-', 'max-', ''])
        op = {'min-': '>=', 'max-': '<=', '': '='}[prefix]
        if name == 'resolution' and 'dppx' not in t and op == '=':
            op, prefix = '>=', 'min-'
        if 'dpi' in t or 'dpcm' in t:
            t, v = '%gdpi' % (env.number(name) * 96 * rng.choice([0.5, 2])), None
            v = lambda e, n=float(t[:-3]) / 96: n
        return '%s%s%s%s:%s%s%s' % (ws(rng), prefix, name, ws(rng), ws(rng), t, ws(rng)), lambda e: compare(e.number(name), op, v(e)), 'plain'
    t, v = value(rng, env, name)
    if 'dpi' in t or 'dpcm' in t:
        t = '%gdpi' % (env.number(name) * 96 * rng.choice([0.5, 2]))
        v = lambda e, n=float(t[:-3]) / 96: n
    op = rng.choice(['<', '<=', '>', '>=', '='])
    turned = {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '=': '='}[op]
    if r < 0.85:
        return '%s%s%s%s%s%s%s' % (ws(rng), name, ws(rng), op, ws(rng), t, ws(rng)), lambda e: compare(e.number(name), op, v(e)), 'range'
    if r < 0.92 or op == '=' or name == 'resolution':
        return '%s%s%s%s%s%s%s' % (ws(rng), t, ws(rng), turned, ws(rng), name, ws(rng)), lambda e: compare(e.number(name), op, v(e)), 'range'
    t2, v2 = value(rng, env, name)
    op2 = rng.choice([op[0], op[0] + '='])
    # t2 turned(op2)... : both sides in the same direction
    left = {'<': '>', '>': '<'}[op2[0]]
    low = {'<': '<', '<=': '<=', '>': '>', '>=': '>='}[op]
    return ('%s%s%s%s%s%s%s%s%s' % (t2, ws(rng), op2, ws(rng), name, ws(rng), low, ws(rng), t),
            lambda e: compare(v2(e), op2, e.number(name)) and compare(e.number(name), low, v(e)), 'between')


def condition(rng, env, depth=0):
    """(text, truth, kinds) of a <media-condition>."""
    if depth < 2 and rng.random() < 0.12:
        t, f, k = group(rng, env, depth)
        if 'unknown' in k:
            return t, f, k
        return 'not ' + t, lambda e: not f(e), k + ['not']
    parts = [group(rng, env, depth) for _ in range(rng.choice([1, 1, 2, 2, 3]))]
    op = rng.choice(['and', 'or'])
    t = parts[0][0]
    for p in parts[1:]:
        t += rng.choice([' ', '  ', '\n']) + op + ' ' + p[0]
    kinds = sum((p[2] for p in parts), [op] if len(parts) > 1 else [])
    if op == 'and':
        return t, lambda e: all(p[1](e) for p in parts), kinds
    return t, lambda e: any(p[1](e) for p in parts), kinds


def group(rng, env, depth):
    if depth < 2 and rng.random() < 0.15:
        t, f, k = condition(rng, env, depth + 1)
        if not ('(' in t):
            t = '(' + t + ')'
        return '(' + ws(rng) + t + ws(rng) + ')', f, k + ['nested']
    t, f, k = feature(rng, env)
    return '(' + t + ')', f, [k]


def query(rng, env):
    """(text, truth, truth as pinned by the unit tests for 'not' with features, kinds)."""
    r = rng.random()
    if r < 0.5:
        t, f, k = condition(rng, env)
        return t, f, f, k
    if r < 0.54:
        a, b, c = (group(rng, env, 2)[0] for _ in range(3))
        t = '%s and %s or %s' % (a, b, c)
        return t, (lambda e: False), (lambda e: False), ['mixed']
    if r < 0.57:
        t = rng.choice(['&test', 'test;', 'or and (color)', '&test and (color)'])
        return t, (lambda e: False), (lambda e: False), ['invalid']
    kind = rng.choice(TYPES)
    parts = [group(rng, env, 1) for _ in range(rng.choice([0, 0, 1, 1, 2]))]
    prefix = rng.choice(['', '', '', 'only ', 'not '])
    if prefix == 'not ' and any('unknown' in p[2] for p in parts):
        prefix = ''
    t = prefix + kind
    for p in parts:
        t += ' and ' + p[0]
    def f(e):
        return (kind in ('all', e.media)) and all(p[1](e) for p in parts)
    def anyof(e):
        return (kind in ('all', e.media)) or any(p[1](e) for p in parts)
    kinds = sum((p[2] for p in parts), ['type' + prefix.strip()])
    if prefix == 'not ':
        return t, (lambda e: not f(e)), (lambda e: not anyof(e)), kinds
    return t, f, f, kinds


def spell(rng, t):
    r = rng.random()
    return t.upper() if r < 0.1 else t.title() if r < 0.15 else t


def case(m, rng, i):
    if i % 6 == 5:
        return lists(m, rng)
    if i % 20 == 4:
        return sheets(m, rng)
    env = Env(rng)
    for _ in range(4):
        queries = [query(rng, env) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
        text = rng.choice([',', ', ', ' ,\n']).join(q[0] for q in queries)
        text = ws(rng) + spell(rng, text) + ws(rng)
        mql = env.win.match_media(text)
        m.eq('media', mql.media, text, text)
        for turn in range(3):
            want = any(q[1](env) for q in queries)
            got = mql.matches
            ctx = (text, vars(env), turn)
            for q in queries:
                for k in q[3]:
                    m.saw('kind.' + k)
            m.saw('matches' if got else 'matches-not')
            m.state(sorted(set(sum((q[3] for q in queries), []))), want)
            if got != want and got == any(q[2](env) for q in queries):
                m.finding('not-conjunction', ctx)
            elif got != want:
                m.check('live' if turn else 'matches', False, ctx)
            env.change(rng)
    m.check('empty', env.win.match_media(rng.choice(['', ' ', '\n'])).matches is True, 'empty')


def lists(m, rng):
    """MediaList against a list of texts."""
    pool = ['all', 'screen', 'print', 'screen and (color)', '(width > 1px)', 'not print', 'only screen', 'speech and (min-width: 1em)']
    lst, model = MediaList(), []
    log = []
    for _ in range(rng.randint(2, 10)):
        op = rng.choice(['text', 'append', 'append', 'append-medium', 'delete', 'insert', 'del', 'set', 'clear', 'empty', 'comma'])
        q = rng.choice(pool)
        spaced = rng.choice(['', ' ']) + q + rng.choice(['', ' '])
        log.append((op, spaced))
        if op == 'text':
            model = rng.sample(pool, rng.randint(1, 4))
            lst.media_text = rng.choice([',', ', ', ' , ', ',\n']).join(model)
            log[-1] += (list(model),)
        elif op in ('append', 'append-medium'):
            (lst.append if op == 'append' else lst.append_medium)(spaced)
            if q not in model:
                model.append(q)
        elif op == 'comma':
            lst.append_medium('tv, tty')
        elif op == 'delete':
            if q in model:
                lst.delete_medium(spaced)
                model.remove(q)
            else:
                try:
                    lst.delete_medium(spaced)
                except ValueError:
                    pass
        elif op == 'insert':
            k = rng.randint(0, len(model))
            lst.insert(k, spaced)
            model.insert(k, q)
        elif op == 'del' and model:
            k = rng.randrange(len(model))
            del lst[k]
            del model[k]
        elif op == 'set' and model:
            k = rng.randrange(len(model))
            lst[k] = q
            model[k] = q
        elif op == 'clear':
            lst.clear()
            model = []
        elif op == 'empty':
            lst.media_text = rng.choice(['', ' '])
            model = []
        m.eq('list.items', list(lst), model, log)
        m.eq('list.length', (lst.length, len(lst)), (len(model),) * 2, log)
        m.eq('list.text', lst.media_text, ', '.join(model), log)
        m.eq('list.item', [lst.item(k) for k in range(len(model))], model, log)
        again = MediaList()
        again.media_text = lst.media_text
        m.eq('list.again', list(again), model, log)
        m.state('list', op, len(model))


def sheets(m, rng):
    """Rules apply when the media queries around them do, and again after the window changed."""
    folder = tempfile.mkdtemp(prefix='verif-c05-')
    try:
        env = Env(rng)
        size, env.root = rng.choice([('', (None, None)), (' width="20em"', (400, None)), (' height="2em"', (None, 40)),
                                     (' width="500" height="10" viewBox="0 0 1 1"', (500, 10)), (' width="0" height="0"', (0, 0)),
                                     (' width="50%" height="200%"', (50., 200.))])
        where = rng.choice(['rule', 'nested', 'style'])
        q = query(rng, env)
        q2 = query(rng, env)
        while any(x in q[0] + q2[0] for x in ';&') or 'typenot' in q[3] + q2[3]:
            q, q2 = query(rng, env), query(rng, env)
        if where == 'rule':
            css, attr = '@media %s { #a { fill: red } }' % q[0], ''
        elif where == 'nested':
            css, attr = '@media %s { @media %s { #a { fill: red } } }' % (q[0], q2[0]), ''
        else:
            css, attr = '#a { fill: red }', ' media="%s"' % q[0].replace('<', '&lt;').replace('>', '&gt;')
        css = css.replace('<', '&lt;')
        src = '<svg xmlns="http://www.w3.org/2000/svg"%s font-size="20"><style%s>%s</style><g id="a"/></svg>' % (size, attr, css)
        path = os.path.join(folder, 'a.svg')
        with open(path, 'w') as f:
            f.write(src)
        env.win.location = 'file://' + path
        for _ in range(3):
            want = q[1](env) and (where != 'nested' or q2[1](env))
            got = env.win.document.get_element_by_id('a').get_computed_style()['fill'] == 'red'
            m.eq('sheet', got, want, (src, vars(env)))
            m.state('sheet', where, want)
            env.change(rng)
    finally:
        shutil.rmtree(folder)


if __name__ == '__main__':
    vf.main(vf.Spec('C05', case, quick=6000, thorough=200000,
                    rule='media query lists of types, not, only, features in boolean, plain and range form, nested conditions; windows and '
                         'screens changed between reads; media lists; style sheets under @media and media attributes',
                    required=['matches', 'matches-not', 'kind.plain', 'kind.range', 'kind.between', 'kind.boolean', 'kind.discrete',
                              'kind.nested', 'kind.not', 'kind.mixed', 'kind.unknown', 'list.text', 'sheet', 'empty'],
                    anchors=['svgpy/css/mediaquery.py', 'svgpy/css/screen.py', 'svgpy/window.py'],
                    assumptions=['lengths in ex, ch and other font metrics are not generated', 'color-gamut is compared with rec2020 only',
                                 'not is not applied to unknown features', 'orientation is that of the screen']))
