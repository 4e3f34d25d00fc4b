"""C06: CSS.escape() makes an identifier of any string."""
import re

import cssselect
import tinycss2

import vf
from svgpy import SVGParser
from svgpy.css import CSS, CSSParser

POOL = ['', 'a', 'Z', '_', '-', '--', '0', '9', '-0', '--0', '-a', 'a1', '1a', ' ', '\t', '\n', '\r', '\f', '\0', '\x01', '\x1f', '\x7f', '\x80', '\xa0', '\u00e9', '\u4e00',
        '\ufffd', '\U0001f600', '.', '#', ':', '\\', '"', "'", '(', ')', '[', ']', '{', '}', ';', ',', '>', '+', '~', '*', '|', '/', '/*', '*/', '@', '!', '$', '%', '^', '&', '=', '?', '<', '<!--', '`',
        '\u2028', '\u200b', '\u3000', 'url(', 'not', 'A', 'f', 'F', '00', 'e1', '\x1b']


def text(rng):
    r = rng.random()
    if r < 0.7:
        return ''.join(rng.choice(POOL) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4, 6, 10])))
    if r < 0.85:
        return ''.join(chr(rng.randrange(0, 0x180)) for _ in range(rng.randint(1, 6)))
    out = ''
    for _ in range(rng.randint(1, 4)):
        c = rng.randrange(0x110000)
        out += chr(c) if not 0xd800 <= c < 0xe000 else 'x'
    return out


def xml_ok(t):
    return all(c in '\t\n\r' or 0x20 <= ord(c) < 0xd800 or 0xe000 <= ord(c) < 0xfffe or ord(c) > 0xffff for c in t)


def spec(t):
    """CSSOM: serialize an identifier."""
    out = []
    for i, c in enumerate(t):
        n = ord(c)
        if n == 0:
            out.append('\ufffd')
        elif 1 <= n <= 0x1f or n == 0x7f or (c in '0123456789' and (i == 0 or (i == 1 and t[0] == '-'))):
            out.append('\\' + format(n, 'x') + ' ')
        elif t == '-':
            out.append('\\-')
        elif n >= 0x80 or c in '-_' or c.isalnum():
            out.append(c)
        else:
            out.append('\\' + c)
    return ''.join(out)


def case(m, rng, i):
    t = text(rng) if i >= 300 else '-' * (i % 30 // 10) + '0123456789'[i % 10] + ['', 'a', '-', '0', ' ', '\u00e9', '.', 'f', 'G', '-1'][i // 30]
    e = CSS.escape(t)
    m.eq('serialized', e, spec(t), repr(t))
    m.state('text', t)
    if not t:
        return
    meant = t.replace('\0', '\ufffd')
    # one identifier, also between other tokens
    tail = rng.choice(['', ' ', ':', '.x', '{', ',', '>', '"q"'])
    if t.startswith('--'):
        return      # not an identifier for the installed tinycss2 and cssselect
    tokens = tinycss2.parse_component_value_list(e + tail)
    m.check('ident', tokens[0].type == 'ident' and tokens[0].value == meant, (t, e, tail, repr(tokens[:2])))
    m.check('ident.rest', tinycss2.serialize(tokens[1:]).strip().startswith(tail.strip()[:1]), (t, e, tail))
    for c in t[:12]:
        m.saw('class.' + ('control' if ord(c) < 32 or c == '\x7f' else 'digit' if c.isdigit() and c < ':' else 'beyond' if c >= '\x80' else 'other'))
    if not xml_ok(meant) or re.search(r'\\[0-9a-fA-F]', meant):
        return      # the installed cssselect takes an escaped backslash before a hex digit for an escape
    # selectors made of it find exactly the elements so named
    parser = SVGParser()
    root = parser.create_element_ns('http://www.w3.org/2000/svg', 'svg')
    others = [text(rng) for _ in range(3)] + [meant + 'x', meant[:-1], meant.swapcase(), meant.strip()]
    items = []
    for k, v in enumerate([meant] + [o.replace('\0', '\ufffd') for o in others]):
        if not xml_ok(v):
            continue
        g = parser.create_element_ns('http://www.w3.org/2000/svg', 'g')
        if v:
            g.set('id', v)
        root.append(g)
        items.append((g, v))
    if rng.random() < 0.5:
        rng.shuffle(items)
    want = [k for k, (g, v) in enumerate([(g, v) for g, v in items]) if v == meant]
    try:
        found = list(root.query_selector_all('#' + e))
    except (cssselect.SelectorError, ValueError) as exp:
        m.fail('query.error', (t, e, repr(exp)))
    m.eq('query.id', sorted(id(g) for g in found), sorted(id(items[k][0]) for k in want), lambda: (t, e))
    rules = CSSParser.fromstring('#%s{fill:red}' % e)
    m.eq('rule', len(rules), 1, (t, e))
    again = tinycss2.parse_component_value_list(rules[0].selector_text)
    m.check('rule.selector', len(again) == 1 and again[0].type == 'hash' and again[0].value == meant, (t, e, rules[0].selector_text))
    if not any(c.isspace() for c in meant):
        first = items[0][0]
        first.set('class', 'k ' + meant)
        m.check('query.class', list(root.query_selector_all('.' + e)) == [first], lambda: (t, e))


if __name__ == '__main__':
    vf.main(vf.Spec('C06', case, quick=16000, thorough=600000,
                    rule='strings of identifier, control, digit, punctuation and non-ASCII characters, alone and as id and class selectors',
                    required=['serialized', 'ident', 'query.id', 'query.class', 'rule.selector', 'class.control', 'class.digit', 'class.beyond', 'class.other'],
                    anchors=['svgpy/css/__init__.py'],
                    assumptions=['lone surrogates are not generated', 'the tokenizer is tinycss2', 'strings with a backslash before a hex digit or starting with -- are compared as text only']))
