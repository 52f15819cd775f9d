from gen import *
from simcats.distortions import OccupationDotJumps
from simcats.distortions import _dot_jumps as dj

N = 5
SPAN = {"a": 4, "b": 10}
# (block widths, jump heights) delivered by the generator -> resulting pattern of shifts, lowest voltage first
PATTERNS = (
    ((1, 2, 1, 1, 1), (9, 2, 9, 1, 9), (0, 2, 2, 0, 1)),
    ((2, 1, 9, 1, 1), (9, 1, 9, 9, 9), (0, 0, 1, 0, 0)),
    ((1, 9, 1, 1, 1), (9, 7, 9, 9, 9), (0, 7, 7, 7, 7)),
    ((9, 1, 1, 1, 1), (9, 9, 9, 9, 9), (0, 0, 0, 0, 0)),
)


def limits(name, up, tag=""):
    a = __atom__(name + "lo" + tag)
    __lohi__(a, -20, 20)
    b = a + SPAN[name]
    return np.array([a, b]) if up else np.array([b, a])


def jumper(axis, pat=0, active=1):
    scale = __atom__("scale")
    __lohi__(scale, 6, 10)
    lam = __atom__("lam")
    __lohi__(lam, 1, 2)
    return OccupationDotJumps(scale=scale, lam=lam, axis=axis, ratio=__atom__("ratio"),
                              rng=Gen(active, PATTERNS[pat][0], PATTERNS[pat][1]))


def pattern(pat, up):
    p = PATTERNS[pat][2]
    return p if up else p[::-1]


def shifted(v, n, pat, up, resim):
    """voltage from which every pixel along a sweep takes its value"""
    step = abs(v[1] - v[0]) / (n - 1)
    p = list(pattern(pat, up))
    if not resim:
        # nothing exists before the scan: the outermost pixel is repeated
        p = [min(p[j], j if up else n - 1 - j) for j in range(n)]
    return axis_volts(v, n) - np.array(p) * step


def jumped(axis, v1, v2, up1, up2, shape, pat, resim=True):
    if len(shape) == 1:
        n = shape[0]
        x, y = axis_volts(v1, n), axis_volts(v2, n)
        if resim:
            if axis == 1:
                x = shifted(v1, n, pat, up1, True)
            else:
                y = shifted(v2, n, pat, up2, True)
        # without re-simulation there are no other pixels of the same row or column
        return field_at(x, y)
    x, y = axis_volts(v1, shape[1]), axis_volts(v2, shape[0])
    if axis == 1:
        x = shifted(v1, shape[1], pat, up1, resim)
    else:
        y = shifted(v2, shape[0], pat, up2, resim)
    return field_at(x[np.newaxis, :], y[:, np.newaxis])


def shape2d(axis):
    return (3, N) if axis == 1 else (N, 3)


def split(i):
    return i % 2, i // 2 % 2 == 0, i // 4 % 2 == 0


def run(i, shape, pat, resim, trans):
    axis, up1, up2 = split(i)
    v1, v2 = limits("a", up1), limits("b", up2)
    o, t = fields(v1, v2, shape)
    if not trans:
        t = None
    d = jumper(axis, pat)
    r = d.noise_function(o, t, v1, v2, region if resim else None)
    eo, et = jumped(axis, v1, v2, up1, up2, shape, pat, resim)
    __same__("occupations", o, eo)
    __same__("returned occupations", r[0], eo)
    if trans:
        __same__("transitions", t, et)
        __same__("returned transitions", r[1], et)


def test2d(i):
    run(i, shape2d(i % 2), 0, True, True)


def small2d(i):
    run(i, shape2d(i % 2), 1, True, True)


def far2d(i):
    run(i, shape2d(i % 2), 2, True, True)


def none2d(i):
    run(i, shape2d(i % 2), 3, True, True)


def inner2d(i):
    run(i, shape2d(i % 2), 0, False, True)


def plain2d(i):
    run(i, shape2d(i % 2), 0, True, False)


def test1d(i):
    run(i, (N,), 0, True, True)


def small1d(i):
    run(i, (N,), 1, True, True)


def inner1d(i):
    run(i, (N,), 0, False, True)


def plain1d(i):
    run(i, (N,), 0, True, False)


def fixed1d(i):
    """only the gate of the jump axis is swept"""
    axis, up1, up2 = split(i)
    v1, v2 = limits("a", up1), limits("b", up2)
    if axis == 1:
        v2 = np.array([v2[0], v2[0]])
    else:
        v1 = np.array([v1[0], v1[0]])
    o, t = fields(v1, v2, (N,))
    d = jumper(axis, 0)
    d.noise_function(o, t, v1, v2, region)
    eo, et = jumped(axis, v1, v2, up1, up2, (N,), 0)
    __same__("occupations", o, eo)
    __same__("transitions", t, et)


def pixelwise():
    o, t = fields(np.array([0, 4]), np.array([0, 10]), (2, 3))
    gen = Gen(1, (1, 2, 1, 1, 9, 9), (9, 1, 9, 2, 9, 9))
    r = dj.dot_jumps_pixelwise(t, __atom__("width", "posfloat"), 1, None, gen)
    p = ((0, 1, 1), (0, 2, 0))
    e = np.empty((2, 3))
    for a in range(2):
        for b in range(3):
            e[a, b] = t[a, max(0, b - p[a][b])]
    __same__("pixelwise jumps", r[0], e)
    __same__("pixelwise pattern", r[1], np.array(p))


def huge():
    """jump sizes are not truncated"""
    if not hasattr(dj, "generate_dot_jumps_blockwise"):
        return
    gen = Gen(1, (1, 2, 1, 1, 1), (9, 70000, 9, 300, 9))
    p = dj.generate_dot_jumps_blockwise((3, N), 2, 1, 1, gen)
    __same__("recorded jumps", p, np.array([0, 70000, 70000, 0, 300]))
    gen = Gen(1, (1, 2, 1, 1, 1), (9, 70000, 9, 300, 9))
    p = dj.generate_dot_jumps_blockwise((N, 3), 2, 1, 0, gen)
    __same__("recorded jumps along rows", p, np.array([0, 70000, 70000, 0, 300]))
