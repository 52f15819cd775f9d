from noise import *


def last(g, kind):
    c = [x for x in g.calls if x[0] == kind]
    return c[-1] if c else None


def spans(i, up1, up2):
    """either gate 1 or gate 2 is swept over the wider range"""
    return (limits("a", up1), limits("b", up2)) if i == 0 else (limits("b", up1), limits("a", up2))


def jumps(i):
    """block length and jump height of dot jumps"""
    axis, up1, up2 = split(i)
    v1, v2 = spans(i // 8, up1, up2)
    for shape in ((3, N), (N, 3), (4, 4)):
        jumps_at(axis, v1, v2, shape)
    jumps_at(axis, v1, v2, (N,))
    jumps_at(axis, v1, v2, (7,))
    if axis == 1:
        jumps_at(axis, v1, np.array([v2[0], v2[0]]), (N,))
    else:
        jumps_at(axis, np.array([v1[0], v1[0]]), v2, (N,))


def jumps_at(axis, v1, v2, shape):
    o, t = fields(v1, v2, shape)
    g = Gen(1, (9,), (9,))
    s, l = bounded("s", 60, 100), bounded("l", 60, 100)
    OccupationDotJumps(scale=s, lam=l, axis=axis, ratio=ratio(), rng=g).noise_function(o, t, v1, v2, None)
    if len(shape) == 1:
        n = shape[0]
    else:
        n = shape[1] if axis == 1 else shape[0]
    d = density(v1 if axis == 1 else v2, n)
    c = last(g, "geometric")
    if c is not None:
        __same__("mean block length in pixels", 1 / c[1], s * d)
    c = last(g, "poisson")
    if c is not None:
        __same__("mean jump height in pixels", c[1], l * d)


def blurred(cls, x, sigma):
    if cls is OccupationTransitionBlurringGaussian:
        return gaussian_filter1d(x, sigma=sigma)
    return fermi_filter1d(x, sigma=sigma)


def blur(i):
    cls = BLUR[i % 2]
    up1, up2 = i // 2 % 2 == 0, i // 4 % 2 == 0
    v1, v2 = spans(i // 8, up1, up2)
    s = bounded("s", 6, 10)
    for shape in ((3, N), (N, 3), (4, 4)):
        o, t = fields(v1, v2, shape)
        b = o.copy()
        cls(sigma=s).noise_function(o, t, v1, v2)
        w = s * density(v1, shape[1])
        __same__("2D occupations of dot 1", o[:, :, 0], blurred(cls, b[:, :, 0], w))
        __same__("2D occupations of dot 2", o[:, :, 1], blurred(cls, b[:, :, 1], w))
    for n in (N, 7):
        for g in range(3):
            x1 = v1 if g != 1 else np.array([v1[0], v1[0]])
            x2 = v2 if g != 0 else np.array([v2[0], v2[0]])
            o, t = fields(x1, x2, (n,))
            b = o.copy()
            cls(sigma=s).noise_function(o, t, x1, x2)
            # a diagonal sweep uses the denser gate
            w = s * (density(v1, n) if g == 0 else density(v2, n) if g == 1 else max(density(v1, n), density(v2, n)))
            __same__("1D occupations of dot 1", o[:, 0], blurred(cls, b[:, 0], w))
            __same__("1D occupations of dot 2", o[:, 1], blurred(cls, b[:, 1], w))


def telegraph(i):
    cls = RTN[i % 3]
    up1, up2 = i // 3 % 2 == 0, i // 6 % 2 == 0
    v1, v2 = spans(i // 12, up1, up2)
    s = bounded("s", 6, 10)
    for n in (N, 7):
        for g in range(3):
            x1 = v1 if g != 1 else np.array([v1[0], v1[0]])
            x2 = v2 if g != 0 else np.array([v2[0], v2[0]])
            gen = Gen(1, (9,), ())
            cls(scale=s, std=1, height=1, ratio=ratio(), rng=gen).noise_function(plain(x1, x2, (n,)), x1, x2)
            c = last(gen, "geometric")
            if c is not None:
                # a diagonal sweep uses the longer gate range
                w = s * (density(v1, n) if g == 0 else density(v2, n) if g == 1 else min(density(v1, n), density(v2, n)))
                __same__("1D mean burst length in pixels", 1 / c[1], w)
    # in 2D the pixels are visited along the rows; the denser axis is decisive
    for shape in ((3, N), (4, 4), (30, 3), (20, 4)):
        gen = Gen(1, (99,), ())
        cls(scale=s, std=1, height=1, ratio=ratio(), rng=gen).noise_function(plain(v1, v2, shape), v1, v2)
        c = last(gen, "geometric")
        if c is not None:
            __same__("2D mean burst length in pixels", 1 / c[1], s * max(density(v1, shape[1]), density(v2, shape[0])))


# strengths of around one pixel and less: only the mean lengths have a lower limit of one pixel
SMALL = ((0.01, 0.09), (0.2, 0.8), (1.1, 1.9))


def at_least_one(w, k):
    return w if k == 2 else 1


def jumps_small(i):
    axis, up1, up2 = split(i % 8)
    k = i // 8
    v1, v2 = spans(0, up1, up2)
    for shape in ((3, N), (N, 3), (N,)):
        o, t = fields(v1, v2, shape)
        n = shape[0] if len(shape) == 1 or axis == 0 else shape[1]
        d = density(v1 if axis == 1 else v2, n)
        g = Gen(1, (99,), (1,))
        s, l = bounded(("s0", "s1", "s2")[k], SMALL[k][0], SMALL[k][1]), bounded(("l0", "l1", "l2")[k], SMALL[k][0], SMALL[k][1])
        OccupationDotJumps(scale=s / d, lam=l / d, axis=axis, ratio=ratio(), rng=g).noise_function(o, t, v1, v2, None)
        c = last(g, "geometric")
        if c is not None:
            __same__("mean block length of small jumps", 1 / c[1], at_least_one(s, k))
        c = last(g, "poisson")
        if c is not None:
            __same__("mean height of small jumps", c[1], l)


def blur_small(i):
    cls = BLUR[i % 2]
    k = i // 2 % 3
    v1, v2 = spans(i // 6, True, True)
    s = bounded(("s0", "s1", "s2")[k], SMALL[k][0], SMALL[k][1])
    for shape in ((3, N), (N, 3)):
        o, t = fields(v1, v2, shape)
        b = o.copy()
        cls(sigma=s / density(v1, shape[1])).noise_function(o, t, v1, v2)
        __same__("2D occupations of dot 1, narrow", o[:, :, 0], blurred(cls, b[:, :, 0], s))
        __same__("2D occupations of dot 2, narrow", o[:, :, 1], blurred(cls, b[:, :, 1], s))
    for g in range(2):
        x1 = v1 if g != 1 else np.array([v1[0], v1[0]])
        x2 = v2 if g != 0 else np.array([v2[0], v2[0]])
        o, t = fields(x1, x2, (N,))
        b = o.copy()
        cls(sigma=s / (density(v1, N) if g == 0 else density(v2, N))).noise_function(o, t, x1, x2)
        __same__("1D occupations of dot 1, narrow", o[:, 0], blurred(cls, b[:, 0], s))
        __same__("1D occupations of dot 2, narrow", o[:, 1], blurred(cls, b[:, 1], s))


def telegraph_small(i):
    cls = RTN[i % 3]
    k = i // 3 % 3
    v1, v2 = spans(i // 9, True, True)
    s = bounded(("s0", "s1", "s2")[k], SMALL[k][0], SMALL[k][1])
    for g in range(2):
        x1 = v1 if g != 1 else np.array([v1[0], v1[0]])
        x2 = v2 if g != 0 else np.array([v2[0], v2[0]])
        gen = Gen(1, (99,), ())
        d = density(v1, N) if g == 0 else density(v2, N)
        cls(scale=s / d, std=1, height=1, ratio=ratio(), rng=gen).noise_function(plain(x1, x2, (N,)), x1, x2)
        c = last(gen, "geometric")
        if c is not None:
            __same__("1D mean burst length, short", 1 / c[1], at_least_one(s, k))
    gen = Gen(1, (99,), ())
    cls(scale=s / max(density(v1, 4), density(v2, 3)), std=1, height=1, ratio=ratio(), rng=gen).noise_function(plain(v1, v2, (3, 4)), v1, v2)
    c = last(gen, "geometric")
    if c is not None:
        __same__("2D mean burst length, short", 1 / c[1], at_least_one(s, k))
