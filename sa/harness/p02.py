from noise import *


def state(label, d, on):
    __check__(label + " activated", d.activated is on or d.activated == on)
    __check__(label + " printed", repr(d).endswith("[activated]" if on else "[deactivated]"))


def telegraph(i):
    v1, v2, shape = grid(i // 3)
    data = plain(v1, v2, shape)
    before = data.copy()
    g = Gen(0, (1, 2, 1, 3, 9) * 3, ())
    s, t, h, r = vsampler("s"), vsampler("t"), vsampler("h"), ratio()
    d = RTN[i % 3](scale=s, std=t, height=h, ratio=r, rng=g)
    x = d.noise_function(data, v1, v2)
    __check__("one decision when inactive", decided(g.calls, 0, r))
    __same__("data when inactive", x, before)
    __check__("no sample when inactive", s.count + t.count + h.count == 0)
    state("inactive", d, False)
    g.active = 1
    x = d.noise_function(data, v1, v2)
    __check__("decides first when active", decided(g.calls[:2], 1, r))
    __check__("draws when active", len(g.calls) > 2)
    state("active", d, True)
    g.active = 0
    n, m = len(g.calls), s.count + t.count + h.count
    x = d.noise_function(data, v1, v2)
    __check__("one decision when inactive again", decided(g.calls, n, r))
    __same__("data when inactive again", x, before)
    __check__("no sample when inactive again", s.count + t.count + h.count == m)
    state("inactive again", d, False)


def jumps(i):
    axis, up1, up2 = split(i)
    v1, v2 = limits("a", up1), limits("b", up2)
    for shape in (shape2d(axis), (N,)):
        o, t = fields(v1, v2, shape)
        bo, bt = o.copy(), t.copy()
        g = Gen(0, (1, 2, 1, 1, 1) * 2, (9, 2, 9, 1, 9) * 2)
        s, l, r = vsampler("s"), Sampler("l", 1, 2), ratio()
        d = OccupationDotJumps(scale=s, lam=l, axis=axis, ratio=r, rng=g)
        x = d.noise_function(o, t, v1, v2, region)
        __check__("one decision when inactive", decided(g.calls, 0, r))
        __same__("occupations when inactive", x[0], bo)
        __same__("transitions when inactive", x[1], bt)
        __same__("own occupations when inactive", o, bo)
        __same__("own transitions when inactive", t, bt)
        __check__("no sample when inactive", s.count + l.count == 0)
        state("inactive", d, False)
        g.active = 1
        x = d.noise_function(o, t, v1, v2, region)
        __check__("decides first when active", decided(g.calls[:2], 1, r))
        __check__("draws when active", len(g.calls) > 2)
        eo, et = jumped(axis, v1, v2, up1, up2, shape, 0)
        __same__("occupations when active", o, eo)
        state("active", d, True)
        n, m = len(g.calls), s.count + l.count
        x = d.noise_function(o, t, v1, v2, region, True)
        __check__("frozen: no draw", len(g.calls) == n)
        state("frozen after active", d, True)
        o, t = fields(v1, v2, shape)
        g.active = 0
        x = d.noise_function(o, t, v1, v2, region)
        __check__("one decision when inactive again", decided(g.calls, n, r))
        __same__("occupations when inactive again", x[0], bo)
        __same__("transitions when inactive again", x[1], bt)
        __check__("no sample when inactive again", s.count + l.count == m)
        state("inactive again", d, False)
        x = d.noise_function(o, t, v1, v2, region, True)
        __same__("occupations when frozen after inactive", x[0], bo)
        state("frozen after inactive", d, False)
        g.active = 1


def unswept(i):
    """nothing can jump along a gate that is not swept"""
    axis = i % 2
    v1, v2 = limits("a", True), limits("b", True)
    if axis == 1:
        v1 = np.array([v1[0], v1[0]])
    else:
        v2 = np.array([v2[0], v2[0]])
    o, t = fields(v1, v2, (N,))
    bo, bt = o.copy(), t.copy()
    g = Gen(1, (1, 2, 1, 1, 1), (9, 2, 9, 1, 9))
    d = OccupationDotJumps(scale=vsampler("s"), lam=vsampler("l"), axis=axis, ratio=ratio(), rng=g)
    x = d.noise_function(o, t, v1, v2, region if i < 2 else None)
    __same__("occupations without a sweep", x[0], bo)
    __same__("transitions without a sweep", x[1], bt)
    state("without a sweep", d, False)


def certain(i):
    """a ratio of one (also when it is not given) or zero is a decision as well"""
    v1, v2, shape = grid(i // 3 % 2 * 2)
    on = i // 6 == 0
    data = plain(v1, v2, shape)
    before = data.copy()
    g = Gen(1 if on else 0, (1, 2, 1, 3, 9) * 3, ())
    s, t, h = vsampler("s"), vsampler("t"), vsampler("h")
    d = RTN[i % 3](scale=s, std=t, height=h, rng=g) if on else RTN[i % 3](scale=s, std=t, height=h, ratio=0, rng=g)
    x = d.noise_function(data, v1, v2)
    __check__("one decision for a certain occurrence", len(g.calls) > 0 and decided(g.calls[:1], 0, 1 if on else 0))
    __check__("one decision only", on or len(g.calls) == 1)
    if not on:
        __same__("data for a ratio of zero", x, before)
    state("certain", d, on)


def certain_jumps(i):
    axis = i % 2
    on = i // 2 == 0
    v1, v2 = limits("a", True), limits("b", True)
    o, t = fields(v1, v2, shape2d(axis))
    bo = o.copy()
    g = Gen(1 if on else 0, (1, 2, 1, 1, 1) * 2, (9, 2, 9, 1, 9) * 2)
    s, l = vsampler("s"), Sampler("l", 1, 2)
    d = OccupationDotJumps(scale=s, lam=l, axis=axis, rng=g) if on else OccupationDotJumps(scale=s, lam=l, axis=axis, ratio=0, rng=g)
    d.noise_function(o, t, v1, v2, region)
    __check__("one decision for certain jumps", len(g.calls) > 0 and decided(g.calls[:1], 0, 1 if on else 0))
    if not on:
        __same__("occupations for a ratio of zero", o, bo)
        __check__("one decision only", len(g.calls) == 1)
    state("certain jumps", d, on)
