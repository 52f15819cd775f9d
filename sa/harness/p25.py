from p18 import *
from simcats.support_functions import glf as lib_glf, inverse_glf, multi_glf as lib_multi_glf, sigmoid_cdf, cauchy_cdf, multi_sigmoid_cdf, multi_cauchy_cdf
import simcats.support_functions._fermi_filter1d as filter_module
from simcats.support_functions import fermi_filter1d


def value(f, x):
    """single value of an elementwise function"""
    return f(np.array([x]))[0]


def peak(i):
    mu = __atom__("mu0")
    o = __atom__("offset")
    w = bounded("width", 0.5, 2)
    d, e = __atom__("d", "posfloat"), bounded("e", 0.1, 1)
    for sign in (1, -1):
        h = sign * bounded("height", 0.5, 2)
        p = SensorPeakGaussian(mu, w, h, o) if i == 0 else SensorPeakLorentzian(mu, w, h, o)
        f = lambda x: value(p.sensor_function, x)
        __same__("centre", f(mu), o + h)
        __same__("symmetry", f(mu + d), f(mu - d))
        __monotone__("falls off", f(mu + d), d, -sign)
        __same__("far away", __limit__(f(mu + d), d, 1), o)
        __same__("far away on the other side", __limit__(f(mu - d), d, 1), o)


LEVELS = ((0.1, 0.2, 1.5, 2), (0.8, 1, 1.5, 2), (-2, -1.5, -1, -0.5), (-0.5, -0.25, 0.5, 1))


def shape(up, k=0):
    r = LEVELS[k]
    lo, hi = bounded("al", r[0], r[1]), bounded("ar", r[2], r[3])
    if not up:
        lo, hi = hi, lo
    return (lo, hi, bounded("gr", 0.5, 2), bounded("as", 0.5, 2), bounded("sf", 0.5, 2))


def logistic(i):
    """barriers and rises between their asymptotes, both orientations"""
    up = i % 2 == 0
    sh = shape(up, i // 8)
    i = i % 8
    lo, hi = sh[0], sh[1]
    x = __atom__("x")
    o = __atom__("of")
    a, b = bounded("po", 0.1, 0.2), bounded("fc", 0.8, 0.9)
    if i < 2:
        f = lambda x: lib_glf(x, *sh, 1, o)
        g = lambda y: inverse_glf(y, *sh, 1, o)
    elif i < 4:
        d = BarrierFunctionGLF(a, b, *sh, 1, o)
        f = d.get_value
        p, c = d.pinch_off, d.fully_conductive
        bottom, span = (lo, hi - lo) if up else (hi, lo - hi)
        __same__("value at pinch off", f(p), bottom + span * a)
        __same__("value at the fully conductive point", f(c), bottom + span * b)
        if up:
            __check__("pinch off below the fully conductive point", value_order(d.pinch_off, d.fully_conductive))
    elif i < 6:
        d = SensorRiseGLF(__atom__("mu0"), *sh, 1, b)
        f = lambda x: d.sensor_function(x, o)
        __same__("fully conductive at the given offset", f(o), lo + (hi - lo) * b)
        __same__("unshifted curve", d.sensor_function(x, d.fully_conductive), lib_glf(x, *sh, 1, d.mu0))
    else:
        d = BarrierFunctionMultiGLF(a, b, *sh, 1, o)
        f = d.get_value
        __same__("single logistic", f(x), lib_glf(x, *sh, 1, o))
    __monotone__("monotone", f(x), x, 1 if up else -1)
    __same__("left asymptote", __limit__(f(x), x, -1), lo)
    __same__("right asymptote", __limit__(f(x), x, 1), hi)
    __same__("elementwise", f(np.array([x, o]))[0], f(x))


def value_order(p, c):
    return p < c


def inverse(i):
    sh = shape(i == 0)
    o, x = __atom__("of"), bounded("x", -1, 1)
    den = bounded("do", 0.9, 1.1)
    __same__("inverse of the curve", inverse_glf(lib_glf(x, *sh, den, o), *sh, den, o), x)
    y = bounded("y", 0.4, 1.3)
    __same__("curve of the inverse", lib_glf(inverse_glf(y, *sh, 1, o), *sh, 1, o), y)
    q = seven("a") + seven("b")
    total = 0
    for k in range(0, len(q), 7):
        total = total + lib_glf(x, *q[k:k + 7])
    __same__("several logistics", lib_multi_glf(x, *q), total)


def transition(i):
    single = (sigmoid_cdf, cauchy_cdf)[i]
    several = (multi_sigmoid_cdf, multi_cauchy_cdf)[i]
    f = lambda x, *p: single(np.array([x]), *p)[0]
    m = lambda x, p: several(np.array([x]), p)[0]
    x0, w, x = __atom__("x0"), bounded("w", 0.5, 2), __atom__("x")
    d = __atom__("d", "posfloat")
    __same__("one half at the centre", f(x0, x0, w), 0.5)
    __monotone__("monotone", f(x, x0, w), x, 1)
    __same__("zero on the left", __limit__(f(x, x0, w), x, -1), 0)
    __same__("one on the right", __limit__(f(x, x0, w), x, 1), 1)
    __same__("point symmetry", f(x0 + d, x0, w) + f(x0 - d, x0, w), 1)
    __same__("no width: centre", f(x0, x0, 0), 0.5)
    __same__("no width: left", f(x0 - d, x0, 0), 0)
    __same__("no width: right", f(x0 + d, x0, 0), 1)
    x1, w1 = __atom__("x1"), bounded("w1", 0.5, 2)
    __same__("several transitions", m(x, [x0, w, x1, w1]), f(x, x0, w) + f(x, x1, w1))


KERNELS = []
ASKED = []


def capture(input, weights, axis=-1, output=None, mode="reflect", cval=0.0, origin=0):
    KERNELS.append((weights, origin))
    ASKED.append((input, axis, mode, cval))
    return input


def kernel(i):
    filter_module.convolve1d = capture
    s = bounded("s", 0.5, 2)
    fermi_filter1d(__arr__("x", (4, 5)), s, radius=i + 1)
    for w, origin in KERNELS:
        n = len(w)
        __check__("odd length", n == 2 * (i + 1) + 1)
        __same__("no displacement", origin, 0)
        __same__("normalised", np.sum(w), 1)
        for k in range(n):
            __same__("symmetric", w[k], w[n - 1 - k])
            if k < n // 2:
                __check__("falls off from the centre", w[k] < w[k + 1])
            __check__("not negative", w[k] >= 0)
        __freeof__("weights do not depend on the data", w, "nothing")


def width(i):
    """the kernel is wide enough: its radius follows the width"""
    filter_module.convolve1d = capture
    fermi_filter1d(__arr__("x", (4, 5)), (0.5, 1.0, 2.0)[i])
    for w, origin in KERNELS:
        __check__("odd length", len(w) % 2 == 1)
        __check__("covers the distribution", len(w) >= 2 * 3 * (0.5, 1.0, 2.0)[i] + 1)
        __same__("normalised", np.sum(w), 1)
        for k in range(len(w)):
            __same__("symmetric", w[k], w[len(w) - 1 - k])


def orientation(i):
    """the filter runs along the requested axis, with the requested treatment of the borders"""
    filter_module.convolve1d = capture
    axis, mode = ((0, "reflect"), (1, "nearest"), (-2, "constant"), (-1, "wrap"), (0, "mirror"))[i]
    x = __arr__("x", (4, 5))
    c = __atom__("c")
    fermi_filter1d(x, 1.5, axis=axis, mode=mode, cval=c)
    for data, a, m, v in ASKED:
        __same__("data to filter", data, x)
        __check__("axis to filter", a % 2 == axis % 2)
        if mode in ("reflect", "nearest", "wrap", "mirror", "constant"):
            __check__("border mode", m == mode or (m == "grid-" + mode and mode == "constant"))
        if mode == "constant":
            __same__("border value", v, c)
    line = __arr__("y", (7,))
    fermi_filter1d(line, 1.5)
    for data, a, m, v in ASKED[1:]:
        __same__("line to filter", data, line)
        __check__("only axis of a line", a in (0, -1))


def wide_kernel(i):
    """wide transitions need wide kernels"""
    filter_module.convolve1d = capture
    s = (60, 7.25)[i]
    fermi_filter1d(__arr__("x", (4, 5)), s)
    for w, origin in KERNELS:
        __check__("wide kernel covers the distribution", len(w) >= 2 * 3 * s + 1)
