from gen import *
from p19 import Line, lines, anchors, sweep, level, rows, labelled, SHAPES, get_electron_occupation
from p28 import Geo, SLOPES
import simcats.ideal_csd.geometric._ideal_csd_geometric as ideal
from simcats.ideal_csd import IdealCSDGeometric
from simcats.support_functions import rotate_points

FACTORS = {"sigmoid": 2.2, "cauchy": 6.15}


def distance(p, a, b):
    """distance of a point from the line from b to a, positive on the right of it"""
    dx, dy = a[0] - b[0], a[1] - b[1]
    return (dx * (p[1] - b[1]) - dy * (p[0] - b[0])) / np.sqrt(dx * dx + dy * dy)


def step(kind, d, mu, width):
    if kind == "sigmoid":
        return 0.5 + 0.5 * np.tanh((d - mu) / width)
    return np.arctan((d - mu) / width) / np.pi + 0.5


def expected(kind, bez, n, factor, p):
    """occupation of the first dot at a point with n electrons in total: one step for each of the n interdot transitions"""
    up, own = bez[n + 1], bez[n]
    a, b = up[1, 1], own[0, 1]
    r = 0
    d = distance(p, a, b)
    for k in range(n):
        start, mid, end = (distance(own[2 * k, j], a, b) for j in range(3))
        r = r + step(kind, d, mid, (end - start) / factor)
    return r


def below(n, tcts):
    """n transitions far below, the others far above"""
    return {k: Line(k, -30 if k <= n else 30) for k in range(1, tcts + 1)}


def factor_of(i):
    if i < 4:
        return None
    g = __atom__("gam")
    __lohi__(g, 1, 8)
    return g


def sweeps(i, n):
    """a sweep within one region"""
    kind = SHAPES[i % 2]
    v1, v2 = sweep("a"), sweep("b")
    bez = anchors(n + 2)
    gam = factor_of(i)
    occ = get_electron_occupation(np.zeros(3), v1, v2, bez, below(n, n + 1), 0, None, kind, gam)
    x, y = axis_volts(v1, 3), axis_volts(v2, 3)
    e = np.stack([expected(kind, bez, n, gam if gam is not None else FACTORS[kind], (x[k], y[k])) for k in range(3)])
    __same__("first dot", occ[:, 0], e)
    __same__("second dot", occ[:, 1], n - e)


def sweep1(i):
    sweeps(i, 1)


def sweep2(i):
    sweeps(i, 2)


def sweep3(i):
    sweeps(i, 3)


GIVEN = (2.2, 6.15, 1, 4.0)


def given(i):
    """a width factor that happens to be a default of one of the shapes is like any other one"""
    kind, gam = SHAPES[i % 2], GIVEN[i // 2]
    v1, v2 = sweep("a"), sweep("b")
    bez = anchors(4)
    occ = get_electron_occupation(np.zeros(2), v1, v2, bez, below(2, 3), 0, None, kind, gam)
    x, y = axis_volts(v1, 2), axis_volts(v2, 2)
    e = np.stack([expected(kind, bez, 2, gam, (x[k], y[k])) for k in range(2)])
    __same__("first dot", occ[:, 0], e)
    __same__("second dot", occ[:, 1], 2 - e)


def oblong(i):
    """scans with many more columns than rows and the other way round"""
    kind = SHAPES[i % 2]
    r, c = ((2, 9), (9, 2))[i // 2]
    v1, v2 = sweep("a"), sweep("b")
    bez = anchors(3)
    occ = labelled(np.zeros((r, c)), np.ones((r, c), dtype=int), [1], v1, v2, below(2, 3), kind, 3)
    if occ is None:
        return
    x, y = axis_volts(v1, c), axis_volts(v2, r)
    for j, k in ((0, 0), (r - 1, c - 1), (0, c - 1), (r - 1, 0), (r // 2, c // 2)):
        e = expected(kind, bez, 2, FACTORS[kind], (x[k], y[j]))
        __same__("first dot", occ[j, k, 0], e)
        __same__("second dot", occ[j, k, 1], 2 - e)


def scan2d(i):
    """regions above one another: every pixel by the transitions of its own region at its own voltages"""
    kind = SHAPES[i % 2]
    v1 = sweep("a")
    v2, f = rows([level("c1", -1, -0.25), level("c2", 0.75, 1.25), level("c3", 3.75, 4.25), 9], 5)
    lab = np.array([[1, 1, 1], [0, 0, 0], [2, 2, 2], [2, 2, 2], [0, 0, 0]])
    csd = np.array([[0, 0, 0], [2, 2, 2], [0, 0, 0], [0, 0, 0], [3, 3, 3]])
    occ = labelled(csd, lab, [1, 2], v1, v2, f, kind, 4)
    if occ is None:
        return
    x, y = axis_volts(v1, 3), axis_volts(v2, 5)
    bez = anchors(4)
    for r, n in ((0, 1), (2, 2), (1, 2), (4, 3)):
        e = np.stack([expected(kind, bez, n, FACTORS[kind], (x[k], y[r])) for k in range(3)])
        __same__("first dot, region " + str(n), occ[r, :, 0], e)
        __same__("second dot, region " + str(n), occ[r, :, 1], n - e)


def fake_functions(tct_params, max_peaks=1):
    return {k: Line(k, -30 if k == 1 else 30) for k in range(1, 3)}


def device(i):
    """the complete device: corner points of its own parameters, turned by its own rotation"""
    if not hasattr(ideal, "initialize_tct_functions"):
        return
    ideal.initialize_tct_functions = fake_functions
    kind = SHAPES[i % 2]
    gam = factor_of(i * 2)
    rot = (0, -np.pi / 2, np.pi / 2, -np.pi / 4)[i]
    gs = [Geo(SLOPES[0], "a"), Geo(SLOPES[2], "b")]
    c = IdealCSDGeometric(tct_params=[g.params() for g in gs], rotation=rot, lut_entries=5, cdf_type=kind, cdf_gamma_factor=gam)
    v1, v2 = sweep("a"), sweep("b")
    occ, _ = c.get_csd_data(v1, v2, 3)
    x, y = axis_volts(v1, 3), axis_volts(v2, 3)
    lo, up = gs[0].corners(1), gs[1].corners(3)
    g = gs[0]

    def turned(p):
        return (np.cos(rot) * p[0] - np.sin(rot) * p[1], np.sin(rot) * p[0] + np.cos(rot) * p[1])
    a, b = turned(up[1]), turned(lo[0])
    s = distance(turned((lo[0][0] - g.dl, lo[0][1] - g.sl * g.dl)), a, b)
    e = distance(turned((lo[0][0] + g.dr, lo[0][1] + g.sr * g.dr)), a, b)
    w = (e - s) / (gam if gam is not None else FACTORS[kind])
    __same__("first dot", occ[:, 0], np.stack([step(kind, distance((x[k], y[k]), a, b), 0, w) for k in range(3)]))


def sharp(i):
    """no round part: the electron moves at once"""
    kind = SHAPES[i]
    v1, v2 = sweep("a"), sweep("b")
    bez = anchors(3)
    m = bez[1][0, 1]
    bez[1] = np.array([[m, m, m]])
    occ = get_electron_occupation(np.zeros(3), v1, v2, bez, below(1, 2), 0, None, kind, None)
    x, y = axis_volts(v1, 3), axis_volts(v2, 3)
    d = [distance((x[k], y[k]), bez[2][1, 1], m) for k in range(3)]
    __same__("first dot", occ[:, 0], np.stack([np.where(v > 0, 1, np.where(v < 0, 0, 0.5)) for v in d]))
