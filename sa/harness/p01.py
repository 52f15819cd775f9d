from noise import *
from simcats.distortions import dot_jumps_blockwise, pink_gaussian_noise, random_telegraph_noise, SensorPotentialDistortionInterface
from simcats.distortions._dot_jumps import generate_dot_jumps_blockwise
from simcats.distortions._random_telegraph_noise import _random_telegraph_noise_two_scales
from simcats.support_functions import NormalSamplingRange, UniformSamplingRange, LogNormalSamplingRange, ExponentialSamplingRange


class Own(Gen):
    """scripted generator that reveals which object was drawn from"""

    def note(self, kind, *args):
        __event__("draw", self)
        self.calls.append((kind,) + args)


def own(active=1):
    return Own(active, (1, 2, 1, 3, 2, 1, 9), (1, 0, 2, 1, 3))


def begin(*gens):
    __event__("begin", list(gens))


def end(result=None):
    __event__("end", result)


def two(what, use, make, gens):
    """components with their own generator (given at construction, then replaced), twice in a row"""
    for active in (1, 0):
        g, h = own(active), own(active)
        d = make(g)
        begin(g)
        use(d)
        use(d)
        end()
        d.rng = h
        begin(h)
        use(d)
        end()


def occ_use(axis, up1, up2, shape):
    v1, v2 = limits("a", up1), limits("b", up2)

    def use(d):
        for freeze in (False, True):
            for resim in (True, False):
                o, t = fields(v1, v2, shape)
                d.noise_function(o, t, v1, v2, region if resim else None, freeze)
                end((o, t))
    return use


def jumps(i):
    axis, up1, up2 = split(i)
    for shape in (shape2d(axis), (N,)):
        use = occ_use(axis, up1, up2, shape)
        two("jumps", use, lambda g: OccupationDotJumps(scale=2, lam=1, axis=axis, ratio=ratio(), rng=g), 1)


def data_use(i):
    v1, v2, shape = grid(i)

    def use(d):
        end(d.noise_function(plain(v1, v2, shape), v1, v2))
    return use


def white(i):
    use = data_use(i)
    two("pink", use, lambda g: SensorPotentialPinkNoise(sigma=bounded("s", 1, 2), fmin=__atom__("fmin"), rng=g), 1)
    two("white", use, lambda g: SensorResponseWhiteNoise(sigma=bounded("s", 1, 2), rng=g), 1)


def telegraph(i):
    use = data_use(i)
    for cls in RTN:
        two("telegraph", use, lambda g: cls(scale=bounded("s", 6, 10), std=bounded("std", 1, 2), height=bounded("h", 1, 2),
                                            ratio=ratio(), rng=g), 1)


def sampled(i):
    """sampled parameters: the sampler draws on its own generator, everything else on the generator of the distortion"""
    use = data_use(i)
    for make in (lambda s, g: SensorPotentialPinkNoise(sigma=s, fmin=__atom__("fmin"), rng=g),
                 lambda s, g: SensorResponseWhiteNoise(sigma=s, rng=g),
                 lambda s, g: SensorResponseRTN(scale=s, std=s, height=s, ratio=ratio(), rng=g)):
        g, h = own(), own()
        s = UniformSamplingRange(total_range=(6, 10), rng=h)
        d = make(s, g)
        begin(g, h)
        use(d)
        end()


def helpers(i):
    v1, v2, shape = grid(i)
    data = plain(v1, v2, shape)
    g = own()
    begin(g)
    end(pink_gaussian_noise(original=data, scale=bounded("s", 1, 2), fmin=__atom__("fmin"), rng=g))
    end(random_telegraph_noise(original=data, scale=bounded("s", 2, 4), std=bounded("std", 1, 2), height=bounded("h", 1, 2), rng=g))
    end(_random_telegraph_noise_two_scales(data, 2, 3, bounded("std", 1, 2), bounded("h", 1, 2), g))
    if len(shape) == 2:
        for axis in (0, 1):
            end(generate_dot_jumps_blockwise(shape, 2, 1, axis, g))
            end(dot_jumps_blockwise(original=data, scale=2, lam=1, axis=axis, rng=g)[0])
    end()


def samplers(i):
    a, b = bounded("ra", 0, 1), bounded("rb", 5, 6)
    sc = bounded("sc", 0.5, 2)
    for sr in (None, bounded("w", 0.5, 3)):
        for make in (lambda g: NormalSamplingRange(total_range=(a, b), std=sc, sampling_range=sr, rng=g),
                     lambda g: UniformSamplingRange(total_range=(a, b), sampling_range=sr, rng=g),
                     lambda g: LogNormalSamplingRange(total_range=(a, b), sampling_range=sr, rng=g, mean=1, sigma=sc),
                     lambda g: ExponentialSamplingRange(total_range=(a, b), scale=sc, sampling_range=sr, rng=g))[i:i + 1]:
            g = __rng__("g")
            begin(g)
            s = make(g)
            end(s.sample_parameter())
            end(s.sample_parameter())
            end(s.last_sample())
            end()


def defaults(i):
    """no generator is given: the default generator exists before the first application"""
    v1, v2, shape = grid(0)
    data = plain(v1, v2, shape)
    if i == 0:
        d = SensorPotentialPinkNoise(sigma=bounded("s", 1, 2))
    elif i == 1:
        d = SensorResponseWhiteNoise(sigma=bounded("s", 1, 2))
    elif i < 5:
        v1, v2, data = v1, np.array([v2[0], v2[0]]), plain(v1, v2, (1,))
        d = RTN[i - 2](scale=bounded("s", 6, 10), std=bounded("std", 1, 2), height=bounded("h", 1, 2), ratio=ratio())
    elif i < 9:
        a, b = bounded("ra", 0, 1), bounded("rb", 5, 6)
        d = (NormalSamplingRange, UniformSamplingRange, LogNormalSamplingRange, ExponentialSamplingRange)[i - 5]
        sc = bounded("sc", 0.5, 2)
        d = (lambda: NormalSamplingRange((a, b), sc), lambda: UniformSamplingRange((a, b)),
             lambda: LogNormalSamplingRange((a, b)), lambda: ExponentialSamplingRange((a, b), sc))[i - 5]()
        begin()
        d.sample_parameter()
        end(d.sample_parameter())
        return
    else:
        d = OccupationDotJumps(scale=2, lam=1, axis=1, ratio=ratio())
        begin(d.rng)
        o, t = fields(v1, v2, shape)
        d.noise_function(o, t, v1, v2)
        end((o, t))
        return
    begin(d.rng)
    end(d.noise_function(data, v1, v2))
    end(d.noise_function(data, v1, v2))


def helper_defaults(i):
    v1, v2, shape = grid(0)
    data = plain(v1, v2, shape)
    begin()
    if i == 0:
        end(pink_gaussian_noise(data, 1, 0))
    elif i == 1:
        end(random_telegraph_noise(plain(v1, v2, (1,)), 2, 1, 1))
    elif i == 2:
        end(generate_dot_jumps_blockwise(shape, 2, 1))
    else:
        end(dot_jumps_blockwise(data, 2, 1)[0])
    end()
