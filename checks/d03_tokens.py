"""D03: DOMTokenList against an ordered-set model, in step with the attribute."""
import vf
from svgpy.element import SVGParser
from svgpy.window import SVGDOMImplementation

POOL = ['a', 'b', 'c', 'foo', 'foo-bar', 'Foo', 'x1', '日本', 'a\u00a0b', '{z}', '(', 'é']
WS = ['\t', '\n', '\x0c', '\r', ' ']


def tokens(text):
    out = []
    cur = ''
    for ch in (text or '') + ' ':
        if ch in WS:
            if cur and cur not in out:
                out.append(cur)
            cur = ''
        else:
            cur += ch
    return out


def spell(rng, toks):
    s = ''.join(rng.choice(WS[:2] + [' ']) for _ in range(rng.choice([0, 0, 1, 2])))
    for k, t in enumerate(toks):
        s += t + (''.join(rng.choice(['\t', '\n', ' ', '\r']) for _ in range(rng.choice([1, 1, 2]))) if k + 1 < len(toks) or
                  rng.random() < 0.3 else '')
    return s


def compare(m, e, attr, tl, mod, hist):
    m.eq('tokens', list(tl), mod, hist)
    m.eq('tokens', (len(tl), tl.length, [tl.item(k) for k in range(len(mod))]), (len(mod), len(mod), mod), hist)
    m.eq('value', tl.value, ' '.join(mod), hist)
    m.eq('attribute', tokens(e.get(attr)), mod, hist)
    for t in POOL[:6]:
        m.eq('contains', (tl.contains(t), t in tl), (t in mod, t in mod), hist)
    m.eq('fresh', list(getattr(e, {'class': 'class_list', 'rel': 'rel_list'}[attr])), mod, hist)


def case(m, rng, i):
    doc = SVGDOMImplementation().create_svg_document()
    if rng.random() < 0.8:
        e, attr = doc.create_element(rng.choice(['g', 'rect', 'foo', 'svg'])), 'class'
        tl = e.class_list
    else:
        e, attr = doc.create_element('link'), 'rel'
        tl = e.rel_list
    mod = []
    hist = []
    look = vf.Glances(rng)
    for k in range(rng.randint(2, 12)):
        op = rng.choice(['add', 'add', 'remove', 'remove', 'toggle', 'toggle_force', 'replace', 'insert', 'set_attr', 'del',
                         'setitem', 'bad', 'clear', 'pop', 'class_name', 'extend', 'drop_attr'])
        t = rng.choice(POOL[:8])
        hist.append((op, t))
        m.event(op, t)
        if op == 'add':
            ts = [rng.choice(POOL) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
            hist.append(ts)
            tl.add(*ts)
            for x in ts:
                if x not in mod:
                    mod.append(x)
        elif op == 'extend':
            ts = [rng.choice(POOL) for _ in range(rng.choice([1, 2]))]
            tl.extend(ts)
            for x in ts:
                if x not in mod:
                    mod.append(x)
        elif op == 'remove':
            ts = [rng.choice(mod + POOL[:3]) for _ in range(rng.choice([0, 1, 1, 2]))]
            hist.append(ts)
            tl.remove(*ts)
            mod = [x for x in mod if x not in ts]
        elif op == 'toggle':
            r = tl.toggle(t)
            m.eq('returns', r, t not in mod, hist)
            mod = [x for x in mod if x != t] if t in mod else mod + [t]
        elif op == 'toggle_force':
            f = rng.choice([True, False])
            r = tl.toggle(t, f) if rng.random() < 0.5 else tl.toggle(t, force=f)
            m.eq('returns', r, f, (f, hist))
            if f and t not in mod:
                mod = mod + [t]
            elif not f:
                mod = [x for x in mod if x != t]
        elif op == 'replace':
            a = rng.choice(mod + POOL[:3])
            r = tl.replace(a, t)
            hist.append(a)
            if a in mod and t not in mod:
                m.eq('returns', r, True, hist)
                mod[mod.index(a)] = t
            else:
                m.eq('returns', r, False, hist)
        elif op == 'insert':
            k = rng.randint(0, len(mod))
            tl.insert(k, t)
            if t not in mod:
                mod.insert(k, t)
        elif op in ('set_attr', 'class_name'):
            ts = [rng.choice(POOL[:7]) for _ in range(rng.choice([0, 1, 2, 4]))]
            s = spell(rng, ts)
            hist.append(s)
            if op == 'class_name' and attr == 'class':
                e.class_name = s
            else:
                rng.choice([e.set, e.set_attribute])(attr, s)
            mod = tokens(s)
        elif op == 'drop_attr':
            e.remove_attribute(attr)
            mod = []
        elif op in ('del', 'pop'):
            if not mod:
                m.raises('index', IndexError, lambda: tl.pop(), hist)
                continue
            k = rng.randrange(len(mod))
            if op == 'del':
                del tl[k]
            else:
                m.eq('returns', tl.pop(k), mod[k], hist)
            del mod[k]
        elif op == 'setitem':
            if mod and t not in mod:
                k = rng.randrange(len(mod))
                tl[k] = t
                mod[k] = t
        elif op == 'clear':
            tl.clear()
            mod = []
        elif op == 'bad':
            before = e.get(attr)
            bad = rng.choice(['', ' ', 'a b', 'a\n', '\tb', 'c\x0cd', '\r'])
            f = rng.choice([lambda: tl.add(bad), lambda: tl.add(t, bad), lambda: tl.remove(t, bad), lambda: tl.remove(bad),
                            lambda: tl.replace(t, bad), lambda: tl.replace(bad, t), lambda: tl.insert(0, bad),
                            lambda: tl.toggle(bad)])
            m.raises('rejected', ValueError, f, hist)
            m.eq('rejected', e.get(attr), before, hist)
        if look(rng):
            compare(m, e, attr, tl, mod, hist)
        m.state(op, min(len(mod), 4), t in mod)
    compare(m, e, attr, tl, mod, hist)
    m.sample({'history': [str(h) for h in hist[-5:]], 'attribute': e.get(attr)})


if __name__ == '__main__':
    vf.main(vf.Spec(
        'D03', case, quick=20000, thorough=500000,
        rule='histories of up to 12 token operations on class and rel, the attribute rewritten in between',
        required=['tokens', 'value', 'attribute', 'contains', 'returns', 'rejected', 'index', 'fresh'],
        anchors=['svgpy/dom.py'],
        assumptions=['slice assignment with tokens already present, and reverse(), are not exercised']))
