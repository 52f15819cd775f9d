from comp import *
from simcats.support_functions import (NormalSamplingRange, UniformSamplingRange, LogNormalSamplingRange, ExponentialSamplingRange)


def bounds():
    a, b = __atom__("ra"), __atom__("rb")
    __lohi__(a, 0, 1)
    __lohi__(b, 5, 6)
    return a, b


def makers(sr, g):
    std = __atom__("std")
    __lohi__(std, 0.5, 2)
    mean = __atom__("mean")
    __lohi__(mean, 0.5, 2)
    a, b = bounds()
    out = []
    for rg, tag in (((a, b), ""), (np.array([a, b]), " (array range)")):
        out.append(("normal" + tag, lambda rg=rg: NormalSamplingRange(total_range=rg, std=std, sampling_range=sr, rng=g)))
        out.append(("uniform" + tag, lambda rg=rg: UniformSamplingRange(total_range=rg, sampling_range=sr, rng=g)))
        out.append(("log-normal" + tag, lambda rg=rg: LogNormalSamplingRange(total_range=rg, sampling_range=sr, rng=g, mean=mean, sigma=std)))
        out.append(("exponential" + tag, lambda rg=rg: ExponentialSamplingRange(total_range=rg, scale=std, sampling_range=sr, rng=g)))
    out.append(("normal with mean", lambda: NormalSamplingRange(total_range=(a, b), std=std, mean=__atom__("mean"), sampling_range=sr, rng=g)))
    return out


def whole_range(i):
    a, b = bounds()
    for name, make in makers(None, __rng__("g"))[i:i + 1]:
        s = make()
        __same__(name + ": nothing sampled yet", s.last_sample(), None)
        x = s.sample_parameter()
        __check__(name + ": not below the range", a <= x)
        __check__(name + ": not above the range", x <= b)
        __same__(name + ": recorded", s.last_sample(), x)
        __same__(name + ": recorded until the next draw", s.last_sample(), x)
        y = s.sample_parameter()
        __check__(name + ": second sample not below the range", a <= y)
        __check__(name + ": second sample not above the range", y <= b)
        __same__(name + ": second sample recorded", s.last_sample(), y)


def narrow_range(i):
    a, b = bounds()
    w = __atom__("w")
    __lohi__(w, 0.5, 3)
    for name, make in makers(w, __rng__("g"))[i:i + 1]:
        s = make()
        x = s.sample_parameter()
        __check__(name + ": not below the total range", a <= x)
        __check__(name + ": not above the total range", x <= b)
        __same__(name + ": recorded", s.last_sample(), x)
        y = s.sample_parameter()
        __check__(name + ": second sample not below the total range", a <= y)
        __check__(name + ": second sample not above the total range", y <= b)
        __check__(name + ": samples lie in one sub-range", y - x <= w)
        __check__(name + ": samples lie in one sub-range (other way)", x - y <= w)
        __same__(name + ": second sample recorded", s.last_sample(), y)


def too_wide(i):
    a, b = bounds()
    for w, label in ((7, "wider"), (b - a, "equal")):
        for name, make in makers(w, __rng__("g"))[i:i + 1]:
            s = make()
            x = s.sample_parameter()
            __check__(name + ": not below the range (%s)" % label, a <= x)
            __check__(name + ": not above the range (%s)" % label, x <= b)


def reversed_exponential(i):
    a, b = bounds()
    w = __atom__("w")
    __lohi__(w, 0.5, 3)
    sc = __atom__("std")
    __lohi__(sc, 0.5, 2)
    for sr in (None, w)[i:i + 1]:
        s = ExponentialSamplingRange(total_range=(b, a), scale=sc, sampling_range=sr, rng=__rng__("g"))
        x, y = s.sample_parameter(), s.sample_parameter()
        __check__("exponential reversed: not below the range", a <= x)
        __check__("exponential reversed: not above the range", x <= b)
        __same__("exponential reversed: recorded", s.last_sample(), y)
        if sr is not None:
            __check__("exponential reversed: one sub-range", y - x <= w)
            __check__("exponential reversed: one sub-range (other way)", x - y <= w)


class Scripted:
    """generator whose draws are given one after the other, whatever they are asked for"""

    def __init__(self, values):
        self.values = values
        self.k = 0
        self.asked = None

    def next(self):
        self.k += 1
        return self.values[self.k - 1]

    def uniform(self, low=0.0, high=1.0, size=None):
        return self.next()

    def normal(self, loc=0.0, scale=1.0, size=None):
        self.asked = (loc, scale)
        return self.next()

    def lognormal(self, mean=0.0, sigma=1.0, size=None):
        self.asked = (mean, sigma)
        return self.next()

    def exponential(self, scale=1.0, size=None):
        return self.next()

    def standard_normal(self, size=None, dtype=None, out=None):
        return __unknown__("standard_normal")

    def standard_exponential(self, size=None, dtype=None, method=None, out=None):
        return __unknown__("standard_exponential")

    def random(self, size=None, dtype=None, out=None):
        return __unknown__("random")


def zero_samples(i):
    """a sample of exactly zero is a sample like any other"""
    g = Scripted([0.5, 0, -0.25, 0.0, 0.75])
    s = (lambda: NormalSamplingRange(total_range=(-1, 1), std=1, rng=g), lambda: UniformSamplingRange(total_range=(-1, 1), rng=g),
         lambda: LogNormalSamplingRange(total_range=(-1, 1), rng=g),
         lambda: ExponentialSamplingRange(total_range=(0, 1), scale=1, rng=g))[i]()
    if i == 3:
        g.values = [0.5, 0, 0.25, 0.0, 0.75]
    for k in range(5):
        x = s.sample_parameter()
        __same__("scripted sample recorded", s.last_sample(), x)
        __check__("scripted sample in range", -1 <= x and x <= 1)


def zero_width(i):
    """a sub-range without extent holds a single value"""
    a, b = bounds()
    s = UniformSamplingRange(total_range=((a, b), np.array([a, b]))[i], sampling_range=0, rng=__rng__("g"))
    x = s.sample_parameter()
    y = s.sample_parameter()
    __same__("sub-range of width zero: one value", y, x)
    __check__("sub-range of width zero: not below the total range", a <= x)
    __check__("sub-range of width zero: not above the total range", x <= b)


def negative_range(i):
    """ranges on both sides of zero and below it"""
    a, b = __atom__("na"), __atom__("nb")
    __lohi__(a, -6, -5)
    __lohi__(b, *((-1, -0.5) if i % 2 else (0.5, 1)))
    sc = __atom__("std")
    __lohi__(sc, 0.5, 2)
    w = __atom__("w")
    __lohi__(w, 0.5, 3)
    for sr in (None, w):
        s = (lambda: NormalSamplingRange(total_range=(a, b), std=sc, sampling_range=sr, rng=__rng__("g")),
             lambda: UniformSamplingRange(total_range=(a, b), sampling_range=sr, rng=__rng__("g")),
             lambda: ExponentialSamplingRange(total_range=(a, b), scale=sc, sampling_range=sr, rng=__rng__("g")))[i // 2]()
        x = s.sample_parameter()
        y = s.sample_parameter()
        __check__("range with negative values: not below the range", a <= x)
        __check__("range with negative values: not above the range", x <= b)
        __same__("range with negative values: recorded", s.last_sample(), y)
        if sr is not None:
            __check__("range with negative values: one sub-range", y - x <= w)
            __check__("range with negative values: one sub-range (other way)", x - y <= w)


def centre(i):
    """a mean of zero is not a missing mean"""
    sc = __atom__("std")
    __lohi__(sc, 0.5, 2)
    g = Scripted([2.5, 2.75])
    s = NormalSamplingRange(total_range=(2, 3), std=sc, mean=(0, 0.0, -1)[i], rng=g)
    s.sample_parameter()
    if g.asked is not None:
        __same__("the given mean is the mean of the draws", g.asked[0], (0, 0, -1)[i])
        __same__("the given deviation is the deviation of the draws", g.asked[1], sc)
    g = Scripted([2.5, 2.75])
    s = LogNormalSamplingRange(total_range=(2, 3), mean=(0, 0.0, -1)[i], sigma=sc, rng=g)
    s.sample_parameter()
    if g.asked is not None:
        __same__("the given logarithmic mean is that of the draws", g.asked[0], (0, 0, -1)[i])
        __same__("the given logarithmic deviation is that of the draws", g.asked[1], sc)
