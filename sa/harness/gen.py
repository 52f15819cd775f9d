"""Scripted stand-ins for random generators, samplers and simulated regions (analysed, never executed)."""
from comp import *
from simcats.support_functions import ParameterSamplingInterface


class Gen:
    """generator whose outcomes are given; counts every draw"""

    def __init__(self, active=1, widths=(), jumps=()):
        self.active = active
        self.widths = widths
        self.jumps = jumps
        self.njump = 0
        self.nnormal = 0
        self.calls = []

    def note(self, kind, *args):
        self.calls.append((kind,) + args)

    def binomial(self, n, p, size=None):
        self.note("decide", p)
        return self.active

    def random(self, size=None):
        self.note("random", size)
        return 0.0 if self.active else 0.9999999

    def geometric(self, p, size=None):
        self.note("geometric", p)
        if size is None:
            self.ngeo = getattr(self, "ngeo", -1) + 1
            return self.widths[self.ngeo % len(self.widths)]
        return np.array([self.widths[i % len(self.widths)] for i in range(size)])

    def poisson(self, lam=1.0, size=None):
        self.note("poisson", lam)
        self.njump += 1
        return self.jumps[(self.njump - 1) % len(self.jumps)]

    def normal(self, loc=0.0, scale=1.0, size=None):
        self.note("normal", loc, scale)
        self.nnormal += 1
        if size is None:
            return loc + scale * __op__("normal%d" % self.nnormal)
        return loc + scale * __oparr__("normal%d" % self.nnormal, size)

    def powerlaw(self, exponent, size, fmin):
        """drawn by colorednoise"""
        self.note("powerlaw", exponent, fmin)
        self.nnormal += 1
        return __oparr__("pink%d" % self.nnormal, size, exponent, fmin)

    def uniform(self, low=0.0, high=1.0, size=None):
        self.note("random", size)
        if size is None:
            return low if self.active else high
        return __unknown__("uniform")

    def other(self, name):
        self.note(name)
        return __unknown__(name)

    def standard_normal(self, size=None, dtype=None, out=None):
        if out is not None:
            return self.other("standard_normal")
        return self.normal(0.0, 1.0, size)

    def choice(self, *a, **k):
        return self.other("choice")

    def integers(self, *a, **k):
        return self.other("integers")

    def exponential(self, *a, **k):
        return self.other("exponential")

    def permutation(self, *a, **k):
        return self.other("permutation")

    def shuffle(self, *a, **k):
        return self.other("shuffle")

    def lognormal(self, *a, **k):
        return self.other("lognormal")

    def standard_exponential(self, *a, **k):
        return self.other("standard_exponential")

    def gamma(self, *a, **k):
        return self.other("gamma")

    def beta(self, *a, **k):
        return self.other("beta")

    def bytes(self, *a, **k):
        return self.other("bytes")

    def negative_binomial(self, *a, **k):
        return self.other("negative_binomial")


class Sampler(ParameterSamplingInterface):
    def __init__(self, name, lo=0.7, hi=0.9):
        self.name = name
        self.lo = lo
        self.hi = hi
        self.count = 0
        self.last = None

    def sample_parameter(self):
        self.count += 1
        self.last = __atom__("%s%d" % (self.name, self.count))
        __lohi__(self.last, self.lo, self.hi)
        return self.last

    def last_sample(self):
        return self.last


def axis_volts(v, n):
    return np.linspace(v[0], v[1], n)


def fields(v1, v2, shape):
    """occupations and transitions as functions of the voltages at every pixel"""
    if len(shape) == 2:
        x, y = axis_volts(v1, shape[1])[np.newaxis, :], axis_volts(v2, shape[0])[:, np.newaxis]
    else:
        x, y = axis_volts(v1, shape[0]), axis_volts(v2, shape[0])
    return field_at(x, y)


def field_at(x, y):
    a, b = __field__("occ_a", x, y), __field__("occ_b", x, y)
    return np.stack([a, b], axis=-1), __field__("trans", x, y)


def region(volt_limits_g1, volt_limits_g2, resolution=100):
    return fields(volt_limits_g1, volt_limits_g2, shape_of(resolution))
