"""D04: dataset (DOMStringMap) against a dictionary and the data-* attributes."""
import vf
from svgpy.exception import InvalidCharacterError
from svgpy.window import SVGDOMImplementation

KEYS = ['a', 'fooBar', 'Foo', 'a1', 'a-1', 'x-', '-', 'fooBarBaz', 'A', 'AB', 'é', 'É', 'foo-', 'aB-1c', '1', 'a_b', '日本', 'aÉb',
        'x.y', 'dataX', '-1', '--', 'A-', 'z9Z']
BADKEYS = ['foo-bar', 'a-b', '-x', 'A-z']
BADNAMES = ['a b', 'a<', 'x"', 'a=1', 'a/', 'a\n', 'q?']


def name_of(key):
    return 'data-' + ''.join('-' + c.lower() if 'A' <= c <= 'Z' else c for c in key)


def case(m, rng, i):
    doc = SVGDOMImplementation().create_svg_document()
    e = doc.create_element(rng.choice(['rect', 'g', 'text', 'svg']))
    ds = e.dataset
    mod = {}
    noise = {}
    hist = []
    look = vf.Glances(rng)
    steps = rng.randint(2, 10)
    for step in range(steps):
        op = rng.choice(['set', 'set', 'set', 'empty', 'del', 'get', 'attr', 'attr_del', 'noise', 'badkey', 'badname', 'update',
                         'pop', 'clear', 'lxml'])
        key = rng.choice(KEYS if rng.random() < 0.5 or not mod else list(mod))
        val = rng.choice(['1', 'x y', 'é', 'long-value', ' ', '<&">'])
        hist.append((op, key))
        m.event(op, key, val)
        if op == 'set':
            ds[key] = val
            mod[key] = val
        elif op == 'empty':
            ds[key] = rng.choice(['', None])
            mod.pop(key, None)
        elif op in ('del', 'pop'):
            if key in mod:
                if op == 'del':
                    del ds[key]
                else:
                    m.eq('get', ds.pop(key), mod[key], hist)
                del mod[key]
            else:
                m.raises('missing', KeyError, lambda: ds.__delitem__(key) if op == 'del' else ds.pop(key), hist)
        elif op == 'get':
            if key in mod:
                m.eq('get', ds[key], mod[key], hist)
            else:
                m.raises('missing', KeyError, lambda: ds[key], hist)
        elif op == 'attr':
            rng.choice([e.set, e.set_attribute])(name_of(key), val)
            mod[key] = val
        elif op == 'lxml':
            e.attrib[name_of(key)] = val
            mod[key] = val
        elif op == 'attr_del':
            e.remove_attribute(name_of(key))
            mod.pop(key, None)
        elif op == 'noise':
            n = rng.choice(['data', 'datax', 'id', 'xdata-y', '{http://x/}data-y', 'data-Up', 'data-aB'])
            e.attrib[n] = val
            noise[n] = val
        elif op == 'badkey':
            b = rng.choice(BADKEYS)
            m.raises('rejected', ValueError, lambda: ds.__setitem__(b, val), hist)
        elif op == 'badname':
            b = rng.choice(BADNAMES)
            m.raises('rejected', InvalidCharacterError, lambda: ds.__setitem__(b, val), hist)
        elif op == 'update':
            d = {rng.choice(KEYS): 'u%d' % j for j in range(rng.randint(0, 3))}
            ds.update(d)
            mod.update(d)
        elif op == 'clear':
            ds.clear()
            mod = {}
        m.state(op, key, len(mod))
        if not look(rng) and not (step == steps - 1):
            continue
        m.eq('items', dict(ds), mod, hist)
        m.eq('items', sorted(ds), sorted(mod), hist)
        m.eq('items', (len(ds), sorted(ds.keys()), sorted(ds.values()), sorted(ds.items())),
             (len(mod), sorted(mod), sorted(mod.values()), sorted(mod.items())), hist)
        want = dict(noise)
        want.update({name_of(q): v for q, v in mod.items()})
        m.eq('attributes', dict(e.attrib), want, hist)
        for q in rng.sample(KEYS, 4):
            m.eq('get', (ds.get(q), q in ds), (mod.get(q), q in mod), hist)
        m.eq('fresh', dict(e.dataset), mod, hist)
    m.sample({'attributes': dict(e.attrib)})


if __name__ == '__main__':
    vf.main(vf.Spec(
        'D04', case, quick=20000, thorough=400000,
        rule='histories of up to 10 dataset and attribute operations over keys with capitals, hyphens, digits, non-ASCII',
        required=['items', 'attributes', 'get', 'missing', 'rejected', 'fresh'],
        anchors=['svgpy/dom.py'],
        assumptions=['an empty string or None removes the entry, as documented by the library\'s attribute interface']))
