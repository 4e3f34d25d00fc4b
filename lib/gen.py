"""Shared value generators: small adversarial pools mixed with uniform draws."""


def num(rng, lo=-100.0, hi=100.0):
    r = rng.random()
    if r < 0.12:
        return 0
    if r < 0.2:
        return rng.choice([1, -1, 2, -2, 0.5, -0.5, 0.25, 10, -10, 100, 3])
    if r < 0.45:
        return rng.randint(int(lo), int(hi))
    if r < 0.55:
        return round(rng.uniform(lo, hi), 1)
    if r < 0.6:
        return rng.uniform(lo, hi) * 1e-3
    return rng.uniform(lo, hi)


def pos(rng, hi=100.0):
    r = rng.random()
    if r < 0.4:
        return rng.randint(1, int(hi))
    if r < 0.5:
        return rng.choice([0.5, 1, 0.1, 2, 10, 100])
    return rng.uniform(0.05, hi)


def angle(rng):
    r = rng.random()
    if r < 0.1:
        return 0
    if r < 0.5:
        return rng.choice([30, 45, 60, 90, 120, 135, 150, 180, 210, 225, 270, 300, 315, 360, 450,
                           720, -30, -45, -90, -135, -180, -270, -360, 1, 89, 91, 179, 181, 359])
    return rng.uniform(-400, 400)


def sample_weighted(rng, table):
    """table: list of (weight, value)"""
    total = sum(w for w, _ in table)
    x = rng.random() * total
    for w, v in table:
        x -= w
        if x < 0:
            return v
    return table[-1][1]
