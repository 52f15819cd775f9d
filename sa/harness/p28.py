from gen import *
import simcats.ideal_csd.geometric._tct_bezier as tb
from simcats.ideal_csd.geometric import tct_bezier, calculate_all_bezier_anchors, initialize_tct_functions
from simcats.support_functions import rotate_points

SLOPES = ((-0.125, -4), (-0.25, -2), (-0.5, -8), (0.25, -0.75))


class Geo:
    """parameters of one transition: start, extents of the round part left and right of its corner, straight lengths, slopes"""

    def __init__(self, slopes, tag="", flat=False):
        self.x0, self.y0 = __atom__("x0" + tag), __atom__("y0" + tag)
        __lohi__(self.x0, -2, 2)
        __lohi__(self.y0, -2, 2)
        self.sl, self.sr = slopes
        self.dl, self.dr = (0, 0) if flat else (self.length("dl" + tag), self.length("dr" + tag))
        self.gl, self.gr = self.length("gl" + tag), self.length("gr" + tag)

    def length(self, name):
        a = __atom__(name)
        __lohi__(a, 0.25, 2)
        return a

    def params(self):
        return np.array([2 * self.dl + self.gl, 2 * self.dr + self.gr, self.sl, self.sr, self.x0, self.y0,
                         self.x0 + self.dl + self.dr, self.y0 + self.sl * self.dl + self.sr * self.dr])

    def corners(self, n):
        """corner points of the zigzag: straight pieces of alternating slope, lengths given by the parameters"""
        x, y = self.x0 + self.dl, self.y0 + self.sl * self.dl
        p = self.params()
        out = [(x, y)]
        for i in range(n - 1):
            d, s = (p[1], self.sr) if i % 2 == 0 else (p[0], self.sl)
            x, y = x + d, y + s * d
            out.append((x, y))
        return out


class Solved:
    """solution branch of the implicit curve"""

    def __init__(self, x, off):
        self.x, self.off = x, off

    def subs(self, mp):
        return __field__("round", mp[self.x], 0) + self.off


class Curve:
    def __init__(self, nodes):
        self.nodes = nodes

    @classmethod
    def from_nodes(cls, nodes, *a, **kw):
        return cls(nodes)

    def evaluate_multi(self, t):
        n = self.nodes
        return np.stack([(1 - t) ** 2 * n[k, 0] + 2 * t * (1 - t) * n[k, 1] + t ** 2 * n[k, 2] for k in range(2)])

    def implicitize(self):
        return self


class Bezier:
    Curve = Curve


class Sym:
    def symbols(self, names):
        return ("x", "y")

    def solve(self, eq, var, **kw):
        return [Solved("x", -3), Solved("x", 0)]


def stubs():
    if not (hasattr(tb, "bezier") and hasattr(tb, "sympy")):
        return False
    tb.bezier = Bezier
    tb.sympy = Sym()
    return True


def part(name):
    u = __atom__(name)
    __lohi__(u, 0.125, 0.875)
    return u


def straight(i):
    """between the round parts, and outside of all of them, the curve is straight"""
    if not stubs():
        return
    g = Geo(SLOPES[i % 4])
    lut = None if i < 4 else 5
    peaks = 2
    c = g.corners(2 * peaks - 1)
    p = g.params()
    u = part("u")
    ends = [(g.dl, g.dr), (g.dr, g.dl)]
    for k in range(2 * peaks - 2):
        lo = c[k][0] + ends[k % 2][1]
        hi = c[k + 1][0] - ends[k % 2][1]
        x = lo + u * (hi - lo)
        s = g.sr if k % 2 == 0 else g.sl
        __same__("straight part " + str(k), tct_bezier(p, np.array([x]), lut, peaks), np.array([c[k][1] + s * (x - c[k][0])]))
    x = c[0][0] - g.dl - u
    __same__("left of the first round part", tct_bezier(p, np.array([x]), lut, peaks), np.array([c[0][1] + g.sl * (x - c[0][0])]))
    x = c[-1][0] + g.dr + u
    __same__("right of the last round part", tct_bezier(p, np.array([x]), lut, peaks), np.array([c[-1][1] + g.sr * (x - c[-1][0])]))


def endless(i):
    """without a limit on the number of round parts the zigzag goes on in both directions"""
    if not stubs():
        return
    g = Geo(SLOPES[i % 4])
    c = g.corners(3)
    p = g.params()
    u = part("u")
    dx, dy = c[2][0] - c[0][0], c[2][1] - c[0][1]
    for m in (-7, -2, -1, 0, 1, 3, 8):
        for k, (l, r) in enumerate(((g.dr, g.dr), (g.dl, g.dl))):
            lo, hi = c[k][0] + l, c[k + 1][0] - r
            x = lo + u * (hi - lo)
            s = g.sr if k == 0 else g.sl
            y = c[k][1] + s * (x - c[k][0])
            __same__("straight part %d of period %d" % (k, m), tct_bezier(p, np.array([x + m * dx]), 5, None), np.array([y + m * dy]))


def rounded(i):
    """round parts: the construction curve, point-mirrored for every second one"""
    if not stubs():
        return
    g = Geo(SLOPES[i])
    peaks = 2
    c = g.corners(2 * peaks - 1)
    p = g.params()
    x = g.x0 + part("u") * (g.dl + g.dr)
    y = __field__("round", x, 0)
    __same__("first round part", tct_bezier(p, np.array([x]), None, peaks), np.array([y]))
    # second: turned about the midpoint between the corners
    __same__("turned round part", tct_bezier(p, np.array([c[0][0] + c[1][0] - x]), None, peaks), np.array([c[0][1] + c[1][1] - y]))
    __same__("repeated round part", tct_bezier(p, np.array([x + c[2][0] - c[0][0]]), None, peaks), np.array([y + c[2][1] - c[0][1]]))


def table(i):
    """with a lookup table: exact at the table's points"""
    if not stubs():
        return
    g = Geo(SLOPES[i])
    peaks = 2
    c = g.corners(2 * peaks - 1)
    p = g.params()
    n = 5
    for j in (1, 2, 3):
        t = j / (n - 1)
        x = (1 - t) ** 2 * g.x0 + 2 * t * (1 - t) * c[0][0] + t ** 2 * p[6]
        y = (1 - t) ** 2 * g.y0 + 2 * t * (1 - t) * c[0][1] + t ** 2 * p[7]
        __same__("table point", tct_bezier(p, np.array([x]), n, peaks), np.array([y]))
        __same__("turned table point", tct_bezier(p, np.array([c[0][0] + c[1][0] - x]), n, peaks), np.array([c[0][1] + c[1][1] - y]))
        __same__("repeated table point", tct_bezier(p, np.array([x + c[2][0] - c[0][0]]), n, peaks), np.array([y + c[2][1] - c[0][1]]))


def single(i):
    """a single voltage is one element of an array of voltages; whole numbers are voltages too"""
    if not stubs():
        return
    g = Geo(SLOPES[i])
    p = g.params()
    x = g.x0 - part("u")
    a = tct_bezier(p, np.array([x, x - 1]), 5, 1)
    __same__("single voltage", tct_bezier(p, x, 5, 1), a[0])
    xs = np.array([x, x - 1])
    s = __snap__([xs, p])
    tct_bezier(p, xs, 5, 1)
    __unchanged__("arguments", [xs, p], s)


def numbers(i):
    """voltages given as whole numbers"""
    if not stubs():
        return
    g = Geo(SLOPES[i % 4])
    p = g.params()
    if i < 4:
        __same__("array of whole numbers", tct_bezier(p, np.array([-9, -8], dtype=int), 5, 1), g.y0 + g.sl * (np.array([-9, -8]) - g.x0))
    else:
        __same__("whole number", tct_bezier(p, -9, 5, 1), g.y0 + g.sl * (-9 - g.x0))


def whole(i):
    """parameters given as whole numbers: the corner keeps its fraction"""
    if not stubs():
        return
    # corner at x = 2/3 (four thirds behind it), resp. 3/2 after the start
    a, d, s = (([8, 8, -1, -4, 0, 0, 2, -6], 2 / 3, (-1, -4)), ([9, 12, -1, -3, 1, 2, 4, -4], 3 / 2, (-1, -3)))[i % 2]
    p = np.array(a, dtype=int) if i < 2 else a
    x0, y0, x2, y2 = a[4:]
    x1, y1 = x0 + d, y0 + s[0] * d
    n = 5
    for j in (1, 2, 3):
        t = j / (n - 1)
        x = (1 - t) ** 2 * x0 + 2 * t * (1 - t) * x1 + t ** 2 * x2
        y = (1 - t) ** 2 * y0 + 2 * t * (1 - t) * y1 + t ** 2 * y2
        __same__("table point", tct_bezier(p, np.array([x]), n, 2), np.array([y]))
        # turned about the midpoint between the corners, which lie one right length apart
        __same__("turned table point", tct_bezier(p, np.array([2 * x1 + a[1] - x]), n, 2), np.array([2 * y1 + a[1] * s[1] - y]))
    u = part("u")
    __same__("before the first round part", tct_bezier(p, np.array([x0 - u]), n, 2), np.array([y0 - u * s[0]]))


def sharp(i):
    """no round part: straight pieces meeting at the corner"""
    if not stubs():
        return
    g = Geo(SLOPES[i], flat=True)
    p = g.params()
    c = g.corners(3)
    u = part("u")
    x = c[0][0] + u * (c[1][0] - c[0][0])
    __same__("straight part", tct_bezier(p, np.array([x]), 5, 2), np.array([c[0][1] + g.sr * (x - c[0][0])]))
    x = c[1][0] + u * (c[2][0] - c[1][0])
    __same__("second straight part", tct_bezier(p, np.array([x]), 5, 2), np.array([c[1][1] + g.sl * (x - c[1][0])]))
    x = c[0][0] - u
    __same__("left part", tct_bezier(p, np.array([x]), 5, 2), np.array([c[0][1] + g.sl * (x - c[0][0])]))


def functions(i):
    """every transition has its own parameters and one round pair more than the one below"""
    m = 1 + i % 2 if i < 4 else 6
    gs = [Geo(SLOPES[0], "a"), Geo(SLOPES[1], "b"), Geo(SLOPES[2], "c")]
    ps = [g.params() for g in gs]
    stub = []

    def fake(*a, **kw):
        return 0
    f = initialize_tct_functions(ps if i < 2 or i == 4 else np.array(ps), max_peaks=m)
    __check__("numbers of the transitions", sorted(f.keys()) == [m, m + 1, m + 2])
    if not stubs():
        return
    for k in range(3):
        g = gs[k]
        n = m + k
        c = g.corners(2 * n - 1)
        u = part("u")
        x = c[-1][0] + g.dr + u
        __same__("behind the last round part", f[m + k](x_eval=np.array([x]), lut_entries=5), np.array([c[-1][1] + g.sr * (x - c[-1][0])]))
        x = c[0][0] - g.dl - u
        __same__("before the first round part", f[m + k](x_eval=np.array([x]), lut_entries=5), np.array([c[0][1] + g.sl * (x - c[0][0])]))
        if n > 1:
            lo, hi = c[-2][0] + g.dl, c[-1][0] - g.dl
            x = lo + u * (hi - lo)
            __same__("before the last round part", f[m + k](x_eval=np.array([x]), lut_entries=5),
                     np.array([c[-1][1] + g.sl * (x - c[-1][0])]))


def anchors(i):
    """corner, start and end of every round part, turned by the rotation"""
    m = 1 + i % 2 if i < 4 else 6
    gs = [Geo(SLOPES[0], "a"), Geo(SLOPES[1], "b"), Geo(SLOPES[3], "c", i == 3)]
    if i >= 4:
        m = 6 - i
        gs += [Geo(SLOPES[k % 4], "d" + str(k)) for k in range(4)]
    nums = [m + k for k in range(len(gs))]
    rot = __atom__("rot")
    ps = [g.params() for g in gs]
    b = calculate_all_bezier_anchors(ps if i < 2 or i == 4 else np.array(ps), m, rot)
    __check__("numbers of the transitions", sorted(b.keys()) == nums)
    for k in range(len(gs)):
        g = gs[k]
        n = 2 * (m + k) - 1
        c = g.corners(n)
        rows = []
        for j in range(n):
            x, y = c[j]
            if j % 2 == 0:
                rows.append([[x - g.dl, y - g.sl * g.dl], [x, y], [x + g.dr, y + g.sr * g.dr]])
            else:
                rows.append([[x - g.dr, y - g.sr * g.dr], [x, y], [x + g.dl, y + g.sl * g.dl]])
        e = np.array(rows)
        __check__("three points for every round part", b[m + k].shape == (n, 3, 2))
        r = np.stack([np.cos(rot) * e[:, :, 0] - np.sin(rot) * e[:, :, 1], np.sin(rot) * e[:, :, 0] + np.cos(rot) * e[:, :, 1]], axis=2)
        __same__("points of the round parts", b[m + k], r)
    one = calculate_all_bezier_anchors(ps[0], 2, rot)
    __check__("single transition", sorted(one.keys()) == [2])
    s = __snap__(ps)
    calculate_all_bezier_anchors(ps, m, rot)
    __unchanged__("parameters", ps, s)
