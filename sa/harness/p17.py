from noise import *


def make(i, sigma, g):
    if i == 0:
        return SensorPotentialPinkNoise(sigma=sigma, fmin=__atom__("fmin"), rng=g)
    return SensorResponseWhiteNoise(sigma=sigma, rng=g)


def apply(i, d, data, v1, v2):
    if i == 0:
        return d.noise_function(mu_sens=data, volt_limits_g1=v1, volt_limits_g2=v2)
    return d.noise_function(sensor_response=data, volt_limits_g1=v1, volt_limits_g2=v2)


def sound(label, r, data, before):
    __check__(label + ": shape", r.shape == before.shape)
    __same__(label + ": input kept", data, before)
    __independent__(label + ": new array", r, data)
    __freeof__(label + ": disturbance does not depend on the input", r - before, "signal")


def white(i):
    v1, v2, shape = grid(i // 2)
    i = i % 2
    s = bounded("s", 6, 10)
    data = plain(v1, v2, shape)
    before = data.copy()
    unit = apply(i, make(i, 1, Gen(1)), data, v1, v2) - before
    d = make(i, s, Gen(1))
    r = apply(i, d, data, v1, v2)
    sound("constant strength", r, data, before)
    __same__("constant strength: disturbance", r - before, unit * s)
    __same__("constant strength: reported", d.latest_sigma, s)
    # the constant is replaced
    s2 = bounded("s2", 6, 10)
    d.sigma = s2
    __same__("before the next application: reported", d.latest_sigma, s)
    r = apply(i, d, data, v1, v2)
    __same__("new constant strength: reported", d.latest_sigma, s2)
    # sampled strength
    p = vsampler("p")
    d = make(i, p, Gen(1))
    r = apply(i, d, data, v1, v2)
    __check__("sampled strength: one sample", p.count == 1)
    sound("sampled strength", r, data, before)
    __same__("sampled strength: disturbance", r - before, unit * p.last)
    __same__("sampled strength: reported", d.latest_sigma, p.last)
    first = p.last
    g = Gen(1)
    d.rng = g
    r = apply(i, d, data, v1, v2)
    __check__("second application: one more sample", p.count == 2)
    __same__("second application: disturbance", r - before, unit * p.last)
    __same__("second application: reported", d.latest_sigma, p.last)
    # no strength, no disturbance
    d = make(i, 0, Gen(1))
    r = apply(i, d, data, v1, v2)
    __same__("strength zero", r, before)
    __same__("strength zero: reported", d.latest_sigma, 0)


def rtn(cls, scale, std, height):
    return cls(scale=scale, std=std, height=height, ratio=ratio(), rng=Gen(1, (1, 2, 1, 3, 2, 1, 9), ()))


def telegraph(i):
    cls = RTN[i % 3]
    v1, v2, shape = grid(i // 3)
    data = plain(v1, v2, shape)
    before = data.copy()
    s = bounded("s", 6, 10)
    one = rtn(cls, s, 1, 0).noise_function(data, v1, v2) - before
    two = rtn(cls, s, 0, 1).noise_function(data, v1, v2) - before
    a, b = bounded("std", 1, 2), bounded("height", 1, 2)
    r = rtn(cls, s, a, b).noise_function(data, v1, v2)
    sound("constant parameters", r, data, before)
    __same__("constant parameters: disturbance", r - before, one * a + two * b)
    ps, pa, pb = vsampler("ps"), vsampler("pa"), vsampler("pb")
    d = rtn(cls, ps, pa, pb)
    r = d.noise_function(data, v1, v2)
    __check__("sampled parameters: one sample each", (ps.count, pa.count, pb.count) == (1, 1, 1))
    sound("sampled parameters", r, data, before)
    __same__("sampled parameters: disturbance", r - before, one * pa.last + two * pb.last)
    d.rng = Gen(1, (1, 2, 1, 3, 2, 1, 9), ())
    r = d.noise_function(data, v1, v2)
    __check__("second application: one more sample each", (ps.count, pa.count, pb.count) == (2, 2, 2))
    __same__("second application: disturbance", r - before, one * pa.last + two * pb.last)
    # bursts shorter than a pixel last one pixel
    r = rtn(cls, bounded("tiny", 0.001, 0.002), a, b).noise_function(data, v1, v2)
    __freeof__("short bursts: disturbance does not depend on the input", r - before, "signal")


def special(i):
    """inputs and strengths that are special cases of nothing"""
    v1, v2, shape = grid(i // 2)
    kind = i % 2
    base = plain(v1, v2, shape)
    g = Gen(1)
    unit = apply(kind, make(kind, 1, g), base, v1, v2) - base
    if kind == 0:
        for c in g.calls:
            if c[0] == "powerlaw":
                __same__("pink noise: exponent", c[1], 1)
                __same__("pink noise: configured minimal frequency", c[2], __atom__("fmin"))
    __changed__("every pixel has its own disturbance", unit[(0,) * len(shape)], unit[(0,) * (len(shape) - 1) + (1,)])
    if len(shape) == 2:
        __changed__("every row has its own disturbance", unit[0, 0], unit[1, 0])
        __changed__("rows are not shifted copies", unit[0, 1], unit[1, 0])
    s = bounded("s", 6, 10)
    for label, data in (("input of zeros", np.zeros(shape)), ("input of ones", np.ones(shape)),
                        ("input of integers", np.full(shape, 3)), ("negative input", np.full(shape, -2.5))):
        before = data.copy()
        r = apply(kind, make(kind, s, Gen(1)), data, v1, v2)
        __same__(label + ": disturbance", r - before, unit * s)
        __same__(label + ": input kept", data, before)
        __independent__(label + ": new array", r, data)
    for label, t in (("tiny strength", bounded("t1", 1e-9, 1e-8)), ("small strength", bounded("t2", 1e-5, 1e-4)),
                     ("large strength", bounded("t3", 1000, 2000))):
        d = make(kind, t, Gen(1))
        r = apply(kind, d, base, v1, v2)
        __same__(label + ": disturbance", (r - base) / t, unit)
        __same__(label + ": reported", d.latest_sigma, t)
        __independent__(label + ": new array", r, base)
    r = apply(kind, make(kind, 0, Gen(1)), base, v1, v2)
    __independent__("strength zero: new array", r, base)
