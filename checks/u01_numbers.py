"""U01: number and coordinate formatting."""
import math
import re

import vf
from gen import num
from svgpy import formatter
from svgpy.formatter import format_coordinate_pair_sequence, format_number_sequence, to_coordinate_pair_sequence

PLAIN = re.compile(r'(0|-?[1-9]\d*|-?(?:0|[1-9]\d*)\.\d*[1-9])\Z')


def number(rng):
    k = rng.randrange(12)
    if k == 0:
        return rng.randint(-10, 10)
    if k == 1:
        return rng.choice([0.0, -0.0, 1e-7, -1e-7, 4.9e-7, -4.9e-7, 5e-7, -5e-7, 5.1e-7, -5.1e-7, 9.999999e-1, 0.9999995, 0.99999949])
    if k == 2:
        return rng.choice([1, -1]) * 10.0 ** rng.randint(-12, 20)
    if k == 3:
        return rng.choice([10, 100, 20, 1000000, -50, 10.0, 200.50, 1e15, 123456789012, 2 ** 53])
    if k == 4:
        return math.ldexp(rng.random() - 0.5, rng.randint(-60, 60))
    if k == 5:
        return round(rng.uniform(-1000, 1000), rng.randint(0, 8))
    if k == 6:
        return rng.randint(-10 ** 6, 10 ** 6) / 10.0 ** rng.randint(0, 8)
    if k == 7:
        # a half of the last digit
        return (2 * rng.randint(-10 ** 6, 10 ** 6) + 1) * 0.5e-6
    return num(rng)


def case(m, rng, i):
    p = 6 if rng.random() < 0.7 else rng.randint(1, 12)
    old = formatter.precision
    formatter.precision = p
    try:
        xs = [number(rng) for _ in range(2 * rng.randint(0, 8))]
        src = rng.choice([list, tuple, iter])
        out = format_number_sequence(src(xs))
        m.eq('count', len(out), len(xs), lambda: (xs, out))
        for x, t in zip(xs, out):
            ctx = lambda: (x, t, p)
            m.check('plain', PLAIN.match(t), ctx)
            m.check('digits', len(t.partition('.')[2]) <= p, ctx)
            m.check('near', abs(float(t) - x) <= 0.5000001 * 10.0 ** -p + abs(x) * 2.3e-16, ctx)
            again = format_number_sequence([float(t)])[0]
            if abs(x) < 1e9 and p <= 6:
                m.eq('stable', again, t, ctx)
            m.eq('alone', format_number_sequence([x]), [t], ctx)
            m.state(p, len(t), t.startswith('-'))
        pairs = to_coordinate_pair_sequence(src(xs))
        m.eq('pairs', pairs, [(xs[k], xs[k + 1]) for k in range(0, len(xs), 2)], xs)
        text = format_coordinate_pair_sequence(src(pairs))
        m.eq('pair-text', text, ' '.join(out[k] + ',' + out[k + 1] for k in range(0, len(xs), 2)), lambda: (xs, text))
        back = [float(v) for v in text.replace(',', ' ').split()]
        m.eq('pair-text', len(back), len(xs), lambda: (xs, text))
        odd = to_coordinate_pair_sequence(src(xs + [1]))
        m.eq('pairs', odd, pairs, xs)
        m.event(p, len(xs))
        m.eq('precision', formatter.precision, p, 'changed')
    finally:
        formatter.precision = old
    m.sample({'numbers': xs, 'text': out, 'precision': p})


if __name__ == '__main__':
    vf.main(vf.Spec(
        'U01', case, quick=30000, thorough=1500000,
        rule='sequences of ints and floats of all magnitudes, halves of the last digit and signed zeros, precision 1 to 12',
        required=['count', 'plain', 'digits', 'near', 'stable', 'alone', 'pairs', 'pair-text', 'precision'],
        anchors=['svgpy/formatter.py'],
        assumptions=['finite numbers']))
