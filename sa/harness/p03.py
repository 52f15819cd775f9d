from noise import *
from p24 import PATTERNS


def calls(g, *samplers):
    return len(g.calls) if g else 0, sum([x.count for x in samplers])


def jumps(i):
    """a fresh application, then frozen ones on the same and on other regions"""
    axis, up1, up2 = split(i)
    v1, v2 = limits("a", up1), limits("b", up2)
    for shape in (shape2d(axis), (N,)):
        o, t = fields(v1, v2, shape)
        g = Gen(1, (1, 2, 1, 1, 1, 2, 1, 9, 1, 1), (9, 2, 9, 1, 9, 1, 1, 1))
        s, l = vsampler("s"), Sampler("l", 1, 2)
        d = OccupationDotJumps(scale=s, lam=l, axis=axis, ratio=ratio(), rng=g)
        bo, bt = o.copy(), t.copy()
        d.noise_function(o, t, v1, v2, region, True)
        __same__("frozen before any application", o, bo)
        __check__("frozen before any application: no draw", calls(g, s, l) == (0, 0))
        d.noise_function(o, t, v1, v2, region)
        n = calls(g, s, l)
        w1, w2 = limits("a", up1, "2"), limits("b", up2, "2")
        for x1, x2, lead in ((v1, v2, True), (w1, w2, True), (w1, w2, False)):
            o, t = fields(x1, x2, shape)
            if not lead:
                t = None
            d.noise_function(o, t, x1, x2, region, True)
            eo, et = jumped(axis, x1, x2, up1, up2, shape, 0)
            __same__("frozen occupations", o, eo)
            if lead:
                __same__("frozen transitions", t, et)
            __check__("frozen: no draw and no sample", calls(g, s, l) == n)
            __check__("frozen: activation kept", d.activated)
        # by keyword, without data beyond the region
        o, t = fields(w1, w2, shape)
        d.noise_function(occupations=o, lead_transitions=t, volt_limits_g1=w1, volt_limits_g2=w2, generate_csd=None, freeze=True)
        eo, et = jumped(axis, w1, w2, up1, up2, shape, 0, False)
        __same__("frozen occupations without re-simulation", o, eo)
        __check__("frozen without re-simulation: no draw and no sample", calls(g, s, l) == n)


def other(i):
    """the length of the other gate's sweep may differ in a frozen application"""
    axis, up1, up2 = split(i)
    v1, v2 = limits("a", up1), limits("b", up2)
    o, t = fields(v1, v2, shape2d(axis))
    g = Gen(1, (1, 2, 1, 1, 1, 2, 1, 9, 1, 1), (9, 2, 9, 1, 9, 1, 1, 1))
    d = OccupationDotJumps(scale=vsampler("s"), lam=Sampler("l", 1, 2), axis=axis, ratio=ratio(), rng=g)
    d.noise_function(o, t, v1, v2, region)
    n = len(g.calls)
    shape = (2, N) if axis == 1 else (N, 2)
    o, t = fields(v1, v2, shape)
    d.noise_function(o, t, v1, v2, region, True)
    eo, et = jumped(axis, v1, v2, up1, up2, shape, 0)
    __same__("frozen occupations", o, eo)
    __same__("frozen transitions", t, et)
    # the limits of a re-simulated region arrive as tuples
    o, t = fields(v1, v2, shape)
    d.noise_function(o, t, v1, (v2[0], v2[1]), region, True)
    __same__("frozen occupations for a tuple", o, eo)
    __check__("frozen: no draw", len(g.calls) == n)


def blur(i):
    """blurring: frozen applications use the recorded strength"""
    cls = BLUR[i % 2]
    v1, v2, shape = grid(i // 2)
    s = Sampler("s", 6, 10)
    d = cls(sigma=s)
    o, t = fields(v1, v2, shape)
    d.noise_function(o, t, v1, v2, region)
    __check__("one sample when fresh", s.count == 1)
    first = s.last
    __same__("recorded strength", d.latest_sigma, first)
    w1, w2 = v1 + __atom__("dx"), v2 + __atom__("dy")
    for x1, x2 in ((v1, v2), (w1, w2)):
        o, t = fields(x1, x2, shape)
        d.noise_function(o, t, x1, x2, region, True)
        eo, et = fields(x1, x2, shape)
        twin = cls(sigma=first)
        twin.noise_function(eo, et, x1, x2, region)
        __same__("frozen occupations", o, eo)
        __check__("frozen: no sample", s.count == 1)
        __same__("frozen: recorded strength kept", d.latest_sigma, first)
    o, t = fields(v1, v2, shape)
    d.noise_function(o, t, v1, v2, region)
    __check__("one more sample when fresh again", s.count == 2)
    __same__("recorded strength after the second fresh application", d.latest_sigma, s.last)
    o, t = fields(v1, v2, shape)
    d.noise_function(o, t, v1, v2, region, True)
    eo, et = fields(v1, v2, shape)
    twin = cls(sigma=s.last)
    twin.noise_function(eo, et, v1, v2, region)
    __same__("frozen occupations after the second fresh application", o, eo)


def fixed(i):
    """a configured constant strength that is changed between the fresh and the frozen application"""
    cls = BLUR[i % 2]
    v1, v2, shape = grid(i // 2)
    a, b = bounded("sa", 6, 10), bounded("sb", 6, 10)
    d = cls(sigma=a)
    o, t = fields(v1, v2, shape)
    d.noise_function(o, t, v1, v2, region)
    d.sigma = b
    o, t = fields(v1, v2, shape)
    d.noise_function(o, t, v1, v2, region, True)
    eo, et = fields(v1, v2, shape)
    twin = cls(sigma=a)
    twin.noise_function(eo, et, v1, v2, region)
    __same__("frozen occupations", o, eo)
    __same__("recorded strength", d.latest_sigma, a)
    o, t = fields(v1, v2, shape)
    d.noise_function(o, t, v1, v2, region)
    __same__("new strength", d.latest_sigma, b)
    # a fresh application without any blurring is replayed as such
    d.sigma = 0
    o, t = fields(v1, v2, shape)
    eo = o.copy()
    d.noise_function(o, t, v1, v2, region)
    __same__("occupations without blurring", o, eo)
    __same__("strength without blurring", d.latest_sigma, 0)
    d.sigma = a
    d.noise_function(o, t, v1, v2, region, True)
    __same__("frozen occupations after an application without blurring", o, eo)


def far(i):
    """jumps over more pixels than the scan has, or over single ones"""
    axis, up1, up2 = split(i % 8)
    pat = 1 + i // 8
    v1, v2 = limits("a", up1), limits("b", up2)
    for shape in (shape2d(axis), (N,)):
        o, t = fields(v1, v2, shape)
        g = Gen(1, PATTERNS[pat][0] + (3, 1, 1, 1, 1), PATTERNS[pat][1] + (1, 2, 1))
        d = OccupationDotJumps(scale=vsampler("s"), lam=Sampler("l", 1, 2), axis=axis, ratio=ratio(), rng=g)
        d.noise_function(o, t, v1, v2, region)
        n = len(g.calls)
        for k in range(2):
            o, t = fields(v1, v2, shape)
            d.noise_function(o, t, v1, v2, region, True)
            eo, et = jumped(axis, v1, v2, up1, up2, shape, pat)
            __same__("frozen occupations", o, eo)
            __same__("frozen transitions", t, et)
        __check__("frozen: no draw", len(g.calls) == n)
