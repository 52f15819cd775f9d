"""shared fixtures for the distortion properties"""
from gen import *
from p24 import jumper, limits, jumped, split, shape2d, N, SPAN
from simcats.distortions import (OccupationDotJumps, OccupationTransitionBlurringFermiDirac, OccupationTransitionBlurringGaussian,
                                 SensorPotentialPinkNoise, SensorResponseWhiteNoise, SensorPotentialRTN, SensorResponseRTN,
                                 RandomTelegraphNoise)
from simcats.support_functions import fermi_filter1d
from scipy.ndimage import gaussian_filter1d

RTN = (RandomTelegraphNoise, SensorPotentialRTN, SensorResponseRTN)
BLUR = (OccupationTransitionBlurringGaussian, OccupationTransitionBlurringFermiDirac)


def bounded(name, lo, hi):
    a = __atom__(name)
    __lohi__(a, lo, hi)
    return a


def ratio():
    return bounded("ratio", 0.2, 0.8)


def decided(calls, first, p):
    """exactly one decision with probability p from position first on"""
    if len(calls) != first + 1:
        return False
    c = calls[first]
    return c[0] == "random" or (c[0] == "decide" and c[1] == p)


def vsampler(name):
    return Sampler(name, 6, 10)


def grid(i):
    """voltages and shape of one of three requests: 2D, 1D along gate 1, 1D along gate 2, 1D diagonal"""
    v1, v2 = limits("a", True), limits("b", True)
    if i == 0:
        return v1, v2, (3, N)
    if i == 1:
        return v1, np.array([v2[0], v2[0]]), (N,)
    if i == 2:
        return np.array([v1[0], v1[0]]), v2, (N,)
    if i == 3:
        return v1, v2, (N,)
    if i == 4:
        return v1[::-1], v2, (3, N)
    return v1, v2[::-1], (N,)


def plain(v1, v2, shape):
    if len(shape) == 2:
        return __field__("signal", axis_volts(v1, shape[1])[np.newaxis, :], axis_volts(v2, shape[0])[:, np.newaxis])
    return __field__("signal", axis_volts(v1, shape[0]), axis_volts(v2, shape[0]))


def density(v, n):
    return n / abs(v[1] - v[0])
