from comp import *
from copy import deepcopy
from p09 import peak, peak2, Bar, Rise, mat
from p10 import near, one, wide
from p11 import occ2, occ1, dims, ssens
from p12 import spec_scan, both
from simcats.sensor import SensorGeneric, SensorScanSensorGeneric
from simcats.sensor.deformation import SensorPeakDeformationInterface


class Bend(SensorPeakDeformationInterface):
    """a deformation that is an arbitrary parabola of the distance"""

    def __init__(self, name):
        self.a, self.b = __atom__("bend1_" + name), __atom__("bend2_" + name)

    def calc_mu(self, dist, mu0):
        return mu0 + self.a * dist + self.b * dist * dist


def peaks(k):
    return ([], [peak("q")], [peak("q"), peak2("w")], [peak("q"), peak2("w"), peak("e"), peak2("r")])[k]


def combined(ps, mu, dist=None, bends=None):
    """sum of the peaks, each evaluated at the potential of the point"""
    if ps is None:
        return mu
    total = 0
    for i in range(len(ps)):
        p = deepcopy(ps[i])
        if bends is not None and i in bends:
            p.mu0 = bends[i].calc_mu(dist, p.mu0)
        total = total + p.sensor_function(mu)
    return total


def generic(i):
    n, (nx, ny) = __dim__("n"), dims()
    ps = peaks(i) if i else None
    s = SensorGeneric(sensor_peak_function=ps if i != 1 else ps[0], alpha_dot=mat("d", 1, 2)[0], alpha_gate=mat("g", 1, 2)[0])
    for mu in (__arr__("mu", (ny, nx)), __arr__("nu", (n,))):
        __same__("sum of all peaks", s.sensor_response(mu), combined(ps, mu))
        __same__("same potential, same response", s.sensor_response(mu), s.sensor_response(mu))
    mu = s.sensor_potential(occ2(nx, ny), near("a"), near("b"))
    __same__("own potential", s.sensor_response(mu), combined(ps, mu))
    # one single point
    mu = __arr__("mu", (1,))
    __same__("single point", s.sensor_response(mu), combined(ps, mu))
    if i > 1:
        s.sensor_peak_function = ps[::-1]
        mu = __arr__("mu", (ny, nx))
        __same__("order of the peaks", s.sensor_response(mu), combined(ps, mu))
        s.sensor_peak_function = None
        __same__("no peaks", s.sensor_response(mu), mu)


def series(part, b1, b2):
    """series connection of the sensor dot and the two barriers, zero where it is undefined"""
    num = part * b1 * b2
    den = b1 * b2 + part * b1 + part * b2
    return np.where(den == 0, 0, num / np.where(den == 0, 1, den))


RISES = []


class Recorder(Rise):
    def sensor_function(self, mu_sens, offset=0):
        RISES.append(offset)
        return Rise.sensor_function(self, mu_sens, offset)

    def __deepcopy__(self, memo):
        return self


def device(k, rise=None, bends=None):
    return SensorScanSensorGeneric(barrier_functions=(Bar("b1"), Bar("b2")), sensor_peak_function=peaks(k) if k else None,
                                   alpha_sensor_gate=mat("as", 3, 2), alpha_gate=mat("ag", 3, 2), alpha_dot=mat("ad", 3, 2),
                                   offset_mu_sens=np.array([__atom__("o0"), __atom__("o1"), __atom__("o2")]),
                                   final_rise=rise, sensor_peak_deformations=bends)


def sweeps(i, nx, ny, n):
    """occupations and the four voltage arguments: plunger sweeps and sensor sweeps, 2D and 1D"""
    return ((occ2(nx, ny), near("a"), near("b"), one("v"), one("w")),
            (occ2(nx, ny), one("v"), one("w"), near("a"), near("b")),
            (occ1(n), near("a"), near("b"), one("v"), one("w")),
            (occ1(n), one("v"), one("w"), near("a"), near("b")),
            (occ2(nx, ny), None, None, near("a"), near("b")),
            (occ1(n), near("a"), one("x"), None, None))[i]


def device_case(s, ps, mu, rise=None):
    part = combined(ps, mu[0])
    if rise is not None:
        part = np.maximum(part, rise)
    return series(part, Bar("b1").get_value(mu[1]), Bar("b2").get_value(mu[2]))


def scan(i):
    """scan-capable sensor without deformations and without final rise"""
    n, (nx, ny) = __dim__("n"), dims()
    o, v1, v2, s1, s2 = sweeps(i % 6, nx, ny, n)
    k = (0, 1, 3)[i // 6]
    ps = peaks(k) if k else None
    s = device(k)
    mu = s.sensor_potential(o, v1, v2, s1, s2)
    __same__("series conductance", s.sensor_response(mu), device_case(s, ps, mu))
    # any other potentials of the same measurement (for example with noise)
    nu = __arr__("nu", mu.shape)
    r = s.sensor_response(nu)
    __same__("series conductance of distorted potentials", r, device_case(s, ps, nu))


class Closing(Bar):
    """a barrier without any conductance at negative potentials"""

    def get_value(self, potential):
        return np.where(potential < 0, 0, Bar.get_value(self, potential))

    def __deepcopy__(self, memo):
        return self


def closed(i):
    """no conductance where the series connection is undefined"""
    n, (nx, ny) = __dim__("n"), dims()
    bars = ((Closing("b1"), Closing("b2")), (Closing("b1"), Bar("b2")), (Bar("b1"), Closing("b2")))[i % 3]
    s = SensorScanSensorGeneric(barrier_functions=bars, sensor_peak_function=None, alpha_sensor_gate=mat("as", 3, 2), alpha_gate=mat("ag", 3, 2), alpha_dot=mat("ad", 3, 2), offset_mu_sens=np.array([__atom__("o0"), __atom__("o1"), __atom__("o2")]))
    o, v1, v2, s1, s2 = sweeps(i // 3, nx, ny, n)
    mu = s.sensor_potential(o, v1, v2, s1, s2)
    nu = __arr__("nu", mu.shape)
    b1, b2 = bars[0].get_value(nu[1]), bars[1].get_value(nu[2])
    __same__("series conductance with closed barriers", s.sensor_response(nu), series(nu[0], b1, b2))
    # nothing conducts at all
    nu = __arr__("ou", mu.shape)
    nu[0] = 0
    nu[1 + (i % 3 == 2)] = -1
    __same__("no conductance if sensor and barrier are closed", s.sensor_response(nu), np.zeros(mu.shape[1:]))


def scan_rise(i):
    """the final rise is a lower bound of the sensor part"""
    n, (nx, ny) = __dim__("n"), dims()
    o, v1, v2, s1, s2 = sweeps(i % 6, nx, ny, n)
    k = 2 if i < 6 else 0
    ps = peaks(k) if k else None
    if i % 6 in (1, 3, 4):
        sg = mat("as", 3, 2)
        __lohi__(sg[1, 1], 1, 2)
        __lohi__(sg[1, 0], 0, None)
    s = device(k, Recorder("r"))
    mu = s.sensor_potential(o, v1, v2, s1, s2)
    nu = __arr__("nu", mu.shape)
    r = s.sensor_response(nu)
    __check__("final rise evaluated", len(RISES) > 0)
    for x in RISES[-1:]:
        __same__("final rise as lower bound", r, device_case(s, ps, nu, Rise("r").sensor_function(nu[0], x)))
        if i % 6 in (1, 3, 4):
            first = o[0, 0] if o.ndim == 3 else o[0]
            __same__("the rise starts at the fully conductive point", np.ravel(x)[0], conductive_point(first, v1, v2))


def point(first, v1, v2, t1, t2):
    """sensor gate voltages at which the barriers have the given potentials (Cramer's rule)"""
    ad, ag, sg, off = mat("ad", 3, 2), mat("ag", 3, 2), mat("as", 3, 2), [__atom__("o0"), __atom__("o1"), __atom__("o2")]
    v1, v2 = both(v1)[0], both(v2)[0]
    rest = [first[0] * ad[k, 0] + first[1] * ad[k, 1] + v1 * ag[k, 0] + v2 * ag[k, 1] + off[k] for k in range(3)]
    c1, c2 = t1 - rest[1], t2 - rest[2]
    det = sg[1, 0] * sg[2, 1] - sg[1, 1] * sg[2, 0]
    return (c1 * sg[2, 1] - c2 * sg[1, 1]) / det, (c2 * sg[1, 0] - c1 * sg[2, 0]) / det, rest[0]


def conductive_point(first, v1, v2):
    x, y, rest = point(first, v1, v2, Bar("b1").fully_conductive, Bar("b2").fully_conductive)
    sg = mat("as", 3, 2)
    return rest + x * sg[0, 0] + y * sg[0, 1]


SENSOR_GATES = (((2, 1), (0.5, 1), (1, 0.25)), ((1, 2), (0, 1), (1, 0)), ((2, 0.5), (0.25, 1), (2, -0.5)))
PLUNGERS = ((0.125, 0.25), (0.5, 0.0625), (0, 0.125))
DOTS = ((-0.5, -0.25), (-0.125, 0), (0.25, -0.125))
OFFSETS = (0.25, -0.5, 1.5)


def bent_device(g, rise, bends):
    return SensorScanSensorGeneric(barrier_functions=(Bar("b1"), Bar("b2")), sensor_peak_function=peaks(2),
                                   alpha_sensor_gate=np.array(SENSOR_GATES[g]), alpha_gate=np.array(PLUNGERS),
                                   alpha_dot=np.array(DOTS), offset_mu_sens=np.array(OFFSETS),
                                   final_rise=rise, sensor_peak_deformations=bends)


def middle(g, bars, first, v1, v2):
    """sensor gate voltages at which both barriers are at their pinch-off"""
    sg = SENSOR_GATES[g]
    rest = [first[0] * DOTS[k][0] + first[1] * DOTS[k][1] + v1 * PLUNGERS[k][0] + v2 * PLUNGERS[k][1] + OFFSETS[k] for k in range(3)]
    c1, c2 = bars[0].pinch_off - rest[1], bars[1].pinch_off - rest[2]
    det = sg[1][0] * sg[2][1] - sg[1][1] * sg[2][0]
    return (c1 * sg[2][1] - c2 * sg[1][1]) / det, (c2 * sg[1][0] - c1 * sg[2][0]) / det


def deformed(i):
    """every pixel uses its own distance from the symmetry line"""
    g, flat, some = i // 4, i // 2 % 2, i % 2
    shape = (3,) if flat else (2, 2)
    o = __arr__("occ", shape + (2,))
    first = o[0] if flat else o[0, 0]
    v1, v2 = (0.75, -1.25)
    s1, s2 = near("a"), near("b")
    bends = {1: Bend("w")} if some else {0: Bend("q"), 1: Bend("w")}
    s = bent_device(g, None, bends)
    mu = s.sensor_potential(o, v1, v2, s1, s2)
    x0, y0 = middle(g, (Bar("b1"), Bar("b2")), first, v1, v2)
    m = SENSOR_GATES[g][0][1] / SENSOR_GATES[g][0][0]
    nu = __arr__("nu", mu.shape)
    r = s.sensor_response(nu)
    ps = peaks(2)
    b1, b2 = Bar("b1").get_value(nu[1]), Bar("b2").get_value(nu[2])
    for k in ((0,), (1,), (2,)) if flat else ((0, 0), (0, 1), (1, 0), (1, 1)):
        u = s1[0] + (s1[1] - s1[0]) * k[-1] / (shape[-1] - 1)
        w = s2[0] + (s2[1] - s2[0]) * (k[0] if not flat else k[0] / (shape[0] - 1))
        # right of the line through the middle point with slope m
        d = ((u - x0) * m - (w - y0)) / np.sqrt(1 + m * m)
        __same__("deformed peaks", r[k], series(combined(ps, nu[0][k], d, bends), b1[k], b2[k]))
    # the peaks themselves stay what they were
    for k in range(2):
        __same__("peaks are not moved", s.sensor_peak_function[k].mu0, ps[k].mu0)


def deformed_rise(i):
    o = __arr__("occ", (3, 2) if i else (2, 2, 2))
    s = bent_device(0, Recorder("r"), {0: Bend("q")})
    mu = s.sensor_potential(o, 0.75, -1.25, near("a"), near("b"))
    s.sensor_response(mu)
    __check__("final rise evaluated with deformed peaks", len(RISES) > 0)


def deformed_plungers(i):
    """deformations do not apply while the plunger gates are swept"""
    n, (nx, ny) = __dim__("n"), dims()
    o, v1, v2, s1, s2 = sweeps((0, 2)[i], nx, ny, n)
    s = device(2, None, {0: Bend("q"), 1: Bend("w")})
    mu = s.sensor_potential(o, v1, v2, s1, s2)
    nu = __arr__("nu", mu.shape)
    __same__("no deformation", s.sensor_response(nu), device_case(s, peaks(2), nu))


def many(i):
    """more peaks than usual, and the same peak more than once"""
    n, (nx, ny) = __dim__("n"), dims()
    q, w = peak("q"), peak2("w")
    ps = [[q, w, peak("e"), peak2("r"), peak("t"), peak2("y"), peak("u")], [q, q], [q, w, q, w, q], [w, peak2("w")]][i]
    s = SensorGeneric(sensor_peak_function=ps, alpha_dot=mat("d", 1, 2)[0], alpha_gate=mat("g", 1, 2)[0])
    for mu in (__arr__("mu", (ny, nx)), __arr__("nu", (n,))):
        __same__("every entry of the peak list contributes", s.sensor_response(mu), combined(ps, mu))
    b1, b2 = Bar("b1"), Bar("b2")
    g = SensorScanSensorGeneric(barrier_functions=(b1, b2), sensor_peak_function=ps, alpha_sensor_gate=mat("as", 3, 2),
                                alpha_gate=mat("ag", 3, 2), alpha_dot=mat("ad", 3, 2), offset_mu_sens=__atom__("off"))
    mu = g.sensor_potential(occ2(nx, ny), near("a"), near("b"), None, None)
    __same__("every entry of the peak list contributes to the series conductance", g.sensor_response(mu),
             series(combined(ps, mu[0]), b1.get_value(mu[1]), b2.get_value(mu[2])))


SMALL_GATES = (((2, 1), (0.5, 0.0009765625), (1, 0.25)), ((2, 1), (0.5, -0.0009765625), (1, 0.25)),
               ((2, 1), (0.0009765625, 0.5), (0.25, 1)), ((1, 2), (-0.5, 1), (1, 0.0009765625)), ((1, 2), (0, -1), (-1, 0)),
               ((1, 2), (-1, 0), (0, -1)), ((0.0009765625, 2), (0.5, 0.25), (-1, 2)), ((1, 0), (2, -0.25), (0.5, 4)))


def small_levers(i):
    """small, negative and missing lever arms of the sensor gates"""
    sg = SMALL_GATES[i]
    n, (nx, ny) = __dim__("n"), dims()
    for o, first in ((occ2(nx, ny), None), (occ1(n), None)):
        first = o[0, 0] if o.ndim == 3 else o[0]
        s = SensorScanSensorGeneric(barrier_functions=(Bar("b1"), Bar("b2")), sensor_peak_function=peaks(2),
                                    alpha_sensor_gate=np.array(sg), alpha_gate=np.array(PLUNGERS), alpha_dot=np.array(DOTS),
                                    offset_mu_sens=np.array(OFFSETS), final_rise=Recorder("r"))
        v1, v2 = 0.75, -1.25
        mu = s.sensor_potential(o, v1, v2, near("a"), near("b"))
        s.sensor_response(mu)
        rest = [first[0] * DOTS[k][0] + first[1] * DOTS[k][1] + v1 * PLUNGERS[k][0] + v2 * PLUNGERS[k][1] + OFFSETS[k]
                for k in range(3)]
        c1, c2 = Bar("b1").fully_conductive - rest[1], Bar("b2").fully_conductive - rest[2]
        det = sg[1][0] * sg[2][1] - sg[1][1] * sg[2][0]
        x, y = (c1 * sg[2][1] - c2 * sg[1][1]) / det, (c2 * sg[1][0] - c1 * sg[2][0]) / det
        for r in RISES[-1:]:
            __same__("the rise starts at the fully conductive point", np.ravel(r)[0], rest[0] + x * sg[0][0] + y * sg[0][1])
