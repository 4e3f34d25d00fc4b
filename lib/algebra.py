"""The 4x4 linear algebra model shared by the geometry checks."""
import math

# --- the model: row-major 4x4 lists, M[r][c]; mCR of the API is M[R-1][C-1] ------------------
NAMES = ['m%d%d' % (c, r) for c in range(1, 5) for r in range(1, 5)]


def eye():
    return [[1.0 if r == c else 0.0 for c in range(4)] for r in range(4)]


def mul(a, b):
    return [[math.fsum(a[r][k] * b[k][c] for k in range(4)) for c in range(4)] for r in range(4)]


def from16(v):
    return [[float(v[c * 4 + r]) for c in range(4)] for r in range(4)]


def to16(m):
    return [m[r][c] for c in range(4) for r in range(4)]


def from6(v):
    a, b, c, d, e, f = v
    return from16([a, b, 0, 0, c, d, 0, 0, 0, 0, 1, 0, e, f, 0, 1])


def mtranslate(x, y, z):
    m = eye()
    m[0][3], m[1][3], m[2][3] = x, y, z
    return m


def mscale(x, y, z):
    m = eye()
    m[0][0], m[1][1], m[2][2] = x, y, z
    return m


def maxis(x, y, z, deg):
    n = math.sqrt(x * x + y * y + z * z)
    if n == 0:
        return eye()
    x, y, z = x / n, y / n, z / n
    t = math.radians(deg)
    # Rodrigues: R = cos I + sin K + (1 - cos) v v^T
    c, s = math.cos(t), math.sin(t)
    v = (x, y, z)
    k = [[0, -z, y], [z, 0, -x], [-y, x, 0]]
    m = eye()
    for i in range(3):
        for j in range(3):
            m[i][j] = (c if i == j else 0) + s * k[i][j] + (1 - c) * v[i] * v[j]
    return m


def mskew(ax, ay):
    m = eye()
    m[0][1] = math.tan(math.radians(ax))
    m[1][0] = math.tan(math.radians(ay))
    return m


def mag(m):
    return max(abs(x) for row in m for x in row)
