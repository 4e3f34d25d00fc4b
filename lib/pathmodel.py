"""An independent model of SVG path geometry: segments -> curves with exact parametric form."""
import math


def rot(v, deg):
    t = math.radians(deg)
    c, s = math.cos(t), math.sin(t)
    return (c * v[0] - s * v[1], s * v[0] + c * v[1])


def add(a, b):
    return (a[0] + b[0], a[1] + b[1])


class Line(object):
    kind = 'L'

    def __init__(self, p0, p1):
        self.p0, self.p1 = p0, p1

    def at(self, t):
        return (self.p0[0] + t * (self.p1[0] - self.p0[0]), self.p0[1] + t * (self.p1[1] - self.p0[1]))

    def length(self):
        return math.hypot(self.p1[0] - self.p0[0], self.p1[1] - self.p0[1])


class Cubic(object):
    kind = 'C'

    def __init__(self, p0, p1, p2, p3):
        self.p = (p0, p1, p2, p3)
        self.p0, self.p1 = p0, p3

    def at(self, t):
        u = 1 - t
        w = (u ** 3, 3 * u * u * t, 3 * u * t * t, t ** 3)
        return tuple(sum(wi * p[k] for wi, p in zip(w, self.p)) for k in (0, 1))

    def speed(self, t):
        u = 1 - t
        d = [(self.p[i + 1][0] - self.p[i][0], self.p[i + 1][1] - self.p[i][1]) for i in range(3)]
        return math.hypot(*(3 * (u * u * d[0][k] + 2 * u * t * d[1][k] + t * t * d[2][k]) for k in (0, 1)))

    def length(self):
        return integrate(self)


class Quad(Cubic):
    def __init__(self, p0, p1, p2):
        c1 = tuple(p0[k] + 2 / 3 * (p1[k] - p0[k]) for k in (0, 1))
        c2 = tuple(p2[k] + 2 / 3 * (p1[k] - p2[k]) for k in (0, 1))
        Cubic.__init__(self, p0, c1, c2, p2)


class Arc(object):
    """SVG 1.1 appendix F.6."""
    kind = 'A'

    def __init__(self, p0, rx, ry, phi, fa, fs, p1):
        self.p0, self.p1 = p0, p1
        rx, ry = abs(rx), abs(ry)
        d = ((p0[0] - p1[0]) / 2, (p0[1] - p1[1]) / 2)
        x1, y1 = rot(d, -phi)
        lam = (x1 / rx) ** 2 + (y1 / ry) ** 2
        self.lam = lam
        if lam > 1:
            k = math.sqrt(lam)
            rx, ry = rx * k, ry * k
        num = (rx * ry) ** 2 - (rx * y1) ** 2 - (ry * x1) ** 2
        den = (rx * y1) ** 2 + (ry * x1) ** 2
        f = math.sqrt(max(0.0, num / den)) if lam < 1 - 1e-12 else 0.0
        if bool(fa) == bool(fs):
            f = -f
        cxp, cyp = f * rx * y1 / ry, -f * ry * x1 / rx
        c = rot((cxp, cyp), phi)
        self.c = (c[0] + (p0[0] + p1[0]) / 2, c[1] + (p0[1] + p1[1]) / 2)
        self.rx, self.ry, self.phi = rx, ry, phi
        self.t1 = math.atan2((y1 - cyp) / ry, (x1 - cxp) / rx)
        t2 = math.atan2((-y1 - cyp) / ry, (-x1 - cxp) / rx)
        dt = t2 - self.t1
        if fs:
            while dt <= 0:
                dt += 2 * math.pi
        else:
            while dt >= 0:
                dt -= 2 * math.pi
        # a half turn is where rounding may put the end on the wrong side
        if lam >= 1 - 1e-12:
            dt = math.pi if fs else -math.pi
        self.dt = dt

    def at(self, t):
        a = self.t1 + t * self.dt
        return add(self.c, rot((self.rx * math.cos(a), self.ry * math.sin(a)), self.phi))

    def speed(self, t):
        a = self.t1 + t * self.dt
        return abs(self.dt) * math.hypot(self.rx * math.sin(a), self.ry * math.cos(a))

    def length(self):
        return integrate(self)


GX = [0.1488743389816312, 0.4333953941292472, 0.6794095682990244, 0.8650633666889845, 0.9739065285171717]
GW = [0.2955242247147529, 0.2692667193099963, 0.2190863625159820, 0.1494513491505806, 0.0666713443086881]


def gauss(f, a, b):
    c, h = (a + b) / 2, (b - a) / 2
    return h * sum(w * (f(c + h * x) + f(c - h * x)) for x, w in zip(GX, GW))


def integrate(curve, tol=1e-9):
    """Adaptive Gauss-Legendre arc length."""
    def go(a, b, whole, depth):
        c = (a + b) / 2
        l, r = gauss(curve.speed, a, c), gauss(curve.speed, c, b)
        if depth == 0 or abs(l + r - whole) <= tol * (1 + abs(whole)):
            return l + r
        return go(a, c, l, depth - 1) + go(c, b, r, depth - 1)
    return go(0.0, 1.0, gauss(curve.speed, 0, 1), 24)


def curves(segs):
    """segs: [(type, v...)].  Returns [(index of segment, curve or None)] for the drawing segments, and
    marks: [(index, 'M', point)] / [(index, 'Z')].  Movetos right after a moveto are implicit linetos."""
    out = []
    cp = (0.0, 0.0)
    start = (0.0, 0.0)
    bearing = 0.0
    last = ''
    ctrl = None
    for i, s in enumerate(segs):
        t, v = s[0], s[1:]
        rel = t.islower()
        T = t.upper()

        def P(x, y):
            if rel:
                return add(cp, rot((x, y), bearing) if bearing else (x, y))
            return (x, y)
        p0 = cp
        newctrl = None
        if T == 'M':
            p = P(*v)
            if last == 'M':
                out.append((i, Line(p0, p)))
            else:
                start = p
                out.append((i, ('M', p)))
            cp = p
        elif T == 'Z':
            out.append((i, ('Z', Line(p0, start))))
            cp = start
        elif T == 'L':
            cp = P(*v)
            out.append((i, Line(p0, cp)))
        elif T == 'H':
            cp = P(v[0], 0) if rel else (v[0], p0[1])
            out.append((i, Line(p0, cp)))
        elif T == 'V':
            cp = P(0, v[0]) if rel else (p0[0], v[0])
            out.append((i, Line(p0, cp)))
        elif T == 'C':
            a, b, p = P(*v[0:2]), P(*v[2:4]), P(*v[4:6])
            out.append((i, Cubic(p0, a, b, p)))
            newctrl, cp = b, p
        elif T == 'S':
            a = (2 * p0[0] - ctrl[0], 2 * p0[1] - ctrl[1]) if last in ('C', 'S') else p0
            b, p = P(*v[0:2]), P(*v[2:4])
            out.append((i, Cubic(p0, a, b, p)))
            newctrl, cp = b, p
        elif T == 'Q':
            a, p = P(*v[0:2]), P(*v[2:4])
            out.append((i, Quad(p0, a, p)))
            newctrl, cp = a, p
        elif T == 'T':
            a = (2 * p0[0] - ctrl[0], 2 * p0[1] - ctrl[1]) if last in ('Q', 'T') else p0
            p = P(*v)
            out.append((i, Quad(p0, a, p)))
            newctrl, cp = a, p
        elif T == 'A':
            rx, ry, phi, fa, fs = v[:5]
            if rel:
                phi += bearing
            p = P(*v[5:7])
            cp = p
            if rx == 0 or ry == 0:
                out.append((i, Line(p0, p)))
            elif math.isclose(p0[0], p[0], rel_tol=1e-9, abs_tol=1e-9) \
                    and math.isclose(p0[1], p[1], rel_tol=1e-9, abs_tol=1e-9):
                out.append((i, None))
            else:
                out.append((i, Arc(p0, rx, ry, phi, fa, fs, p)))
        elif T == 'B':
            bearing = bearing + v[0] if rel else v[0]
            continue
        last, ctrl = T, newctrl
    return out


def total_length(segs):
    s = 0.0
    for _, c in curves(segs):
        if c is None:
            continue
        if isinstance(c, tuple):
            if c[0] == 'Z':
                s += c[1].length()
        else:
            s += c.length()
    return s


def drawn(segs):
    """The curves that are drawn, closing lines included."""
    out = []
    for _, c in curves(segs):
        if c is None:
            continue
        if isinstance(c, tuple):
            if c[0] == 'Z':
                out.append(c[1])
        else:
            out.append(c)
    return out


def box(cs, n=128):
    """Bounding box by dense sampling, refined around extreme samples."""
    lo = [math.inf, math.inf]
    hi = [-math.inf, -math.inf]
    for c in cs:
        if c.kind == 'L':
            pts = [(0, c.at(0)), (1, c.at(1))]
            step = 0
        else:
            pts = [(k / n, c.at(k / n)) for k in range(n + 1)]
            step = 1 / n
        for k in (0, 1):
            for sgn in (1, -1):
                t, p = max(pts, key=lambda q: sgn * q[1][k])
                best = sgn * p[k]
                if step:
                    a, b = max(0, t - step), min(1, t + step)
                    for _ in range(40):
                        u, w = a + (b - a) / 3, b - (b - a) / 3
                        if sgn * c.at(u)[k] < sgn * c.at(w)[k]:
                            a = u
                        else:
                            b = w
                    best = max(best, sgn * c.at((a + b) / 2)[k])
                if sgn > 0:
                    hi[k] = max(hi[k], best)
                else:
                    lo[k] = min(lo[k], -best)
    return lo[0], lo[1], hi[0], hi[1]
