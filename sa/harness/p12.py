from comp import *
from p09 import peak, peak2, Bar, Rise, mat
from p10 import near, one, wide
from p11 import ssens, occ2, occ1, dims
from simcats.sensor import SensorGeneric, SensorScanSensorGeneric
from simcats.support_functions import reset_offset_mu_sens


def grid(v, n, axis, ndim):
    """voltages of one gate at every pixel"""
    x = np.linspace(v[0], v[1], n)
    if ndim == 1:
        return x
    return x[np.newaxis, :] if axis == 1 else x[:, np.newaxis]


def pixel_volts(v1, v2, shape):
    if len(shape) == 2:
        return grid(v1, shape[1], 1, 2), grid(v2, shape[0], 0, 2)
    return grid(v1, shape[0], 0, 1), grid(v2, shape[0], 0, 1)


def spec(o, v1, v2, d0, d1, g0, g1, off):
    x, y = pixel_volts(v1, v2, o.shape[:-1])
    return o[..., 0] * d0 + o[..., 1] * d1 + x * g0 + y * g1 + off


def spec_scan(row, o, v1, v2, s1, s2):
    x, y = pixel_volts(v1, v2, o.shape[:-1])
    u, w = pixel_volts(s1, s2, o.shape[:-1])
    ad, ag, sg, off = mat("ad", 3, 2), mat("ag", 3, 2), mat("as", 3, 2), [__atom__("o0"), __atom__("o1"), __atom__("o2")]
    return (o[..., 0] * ad[row, 0] + o[..., 1] * ad[row, 1] + x * ag[row, 0] + y * ag[row, 1] + u * sg[row, 0] + w * sg[row, 1]
            + off[row])


def both(v):
    """what a fixed voltage (or None) means as a sweep"""
    if v is None:
        return [0, 0]
    if isinstance(v, np.ndarray):
        return v
    return [v, v]


def generic():
    nx, ny = dims()
    n = __dim__("n")
    d0, d1, g0, g1, off = __atom__("d0"), __atom__("d1"), __atom__("g0"), __atom__("g1"), __atom__("off")
    for peaks in (None, peak("q")):
        s = SensorGeneric(sensor_peak_function=peaks, alpha_dot=np.array([d0, d1]), alpha_gate=np.array([g0, g1]), offset_mu_sens=off)
        for v1, v2 in ((near("a"), near("b")), (near("b")[::-1], near("a")), (near("a"), np.array([one("x"), one("x")]))):
            for o in (occ2(nx, ny), occ1(n)):
                __same__("potential of the generic sensor", s.sensor_potential(o, v1, v2), spec(o, v1, v2, d0, d1, g0, g1, off))
                __same__("potential of the generic sensor, by keyword",
                         s.sensor_potential(occupations=o, volt_limits_g1=v1, volt_limits_g2=v2), spec(o, v1, v2, d0, d1, g0, g1, off))


def generic_reassigned():
    nx, ny = dims()
    d0, d1, g0, g1, off = __atom__("d0"), __atom__("d1"), __atom__("g0"), __atom__("g1"), __atom__("off")
    s = SensorGeneric(sensor_peak_function=peak("q"))
    s.alpha_dot = np.array([d0, d1])
    s.alpha_gate = np.array([g0, g1])
    s.offset_mu_sens = off
    o = occ2(nx, ny)
    v1, v2 = near("a"), near("b")
    __same__("potential of the generic sensor after assignment", s.sensor_potential(o, v1, v2), spec(o, v1, v2, d0, d1, g0, g1, off))


def scan_case(label, s, o, v1, v2, s1, s2):
    mu = s.sensor_potential(o, v1, v2, s1, s2)
    nu = s.sensor_potential(occupations=o, volt_limits_g1=v1, volt_limits_g2=v2, volt_limits_sensor_g1=s1, volt_limits_sensor_g2=s2)
    for row in range(3):
        r = spec_scan(row, o, both(v1), both(v2), both(s1), both(s2))
        __same__(label + ", potential " + str(row), mu[row], r)
        __same__(label + ", potential by keyword " + str(row), nu[row], r)
    __check__(label + ", three potentials", len(mu) == 3)


def scan_plunger_sweep():
    nx, ny = dims()
    n = __dim__("n")
    s = ssens(False)
    for o in (occ2(nx, ny), occ1(n)):
        scan_case("diagram", s, o, near("a"), near("b"), one("v"), one("w"))
        scan_case("diagram without sensor voltages", s, o, near("a"), near("b"), None, None)
        scan_case("diagram, both descending", s, o, near("a")[::-1], near("b")[::-1], one("v"), one("w"))
    scan_case("sweep of gate 1", s, occ1(n), near("a"), one("y"), one("v"), one("w"))
    scan_case("sweep of gate 2", s, occ1(n), one("x"), near("b"), one("v"), one("w"))


def scan_sensor_sweep():
    nx, ny = dims()
    n = __dim__("n")
    s = ssens(False)
    for o in (occ2(nx, ny), occ1(n)):
        scan_case("scan", s, o, one("v"), one("w"), near("a"), near("b"))
        scan_case("scan without plunger voltages", s, o, None, None, near("a"), near("b"))
        scan_case("scan, integer plunger voltages", s, o, 1, 2, near("a"), near("b"))
        scan_case("scan with numpy plunger voltages", s, o, np.float64(0.25), np.int64(3), near("a"), near("b"))
    d = ssens(True)
    scan_case("scan with deformations", d, occ2(nx, ny), one("v"), one("w"), near("a"), near("b"))
    scan_case("scan with deformations, 1D", d, occ1(n), one("v"), one("w"), near("a"), near("b"))


def broadcast_parameters():
    """one row or one value given for all three potentials"""
    nx, ny = dims()
    o, v1, v2 = occ2(nx, ny), near("a"), near("b")
    d, g = np.array([__atom__("d0"), __atom__("d1")]), np.array([__atom__("g0"), __atom__("g1")])
    s = SensorScanSensorGeneric(barrier_functions=Bar("b"), sensor_peak_function=peak("q"), alpha_sensor_gate=mat("as", 3, 2),
                                alpha_gate=g, alpha_dot=d, offset_mu_sens=2.5)
    mu = s.sensor_potential(o, v1, v2, one("v"), one("w"))
    x, y = pixel_volts(v1, v2, (ny, nx))
    sg = mat("as", 3, 2)
    for row in range(3):
        __same__("shared lever arms, potential " + str(row), mu[row],
                 o[..., 0] * d[0] + o[..., 1] * d[1] + x * g[0] + y * g[1] + one("v") * sg[row, 0] + one("w") * sg[row, 1] + 2.5)
    s = SensorScanSensorGeneric(barrier_functions=Bar("b"), sensor_peak_function=peak("q"), alpha_sensor_gate=mat("as", 3, 2),
                                alpha_gate=None, alpha_dot=None)
    mu = s.sensor_potential(o, v1, v2, one("v"), one("w"))
    for row in range(3):
        __same__("no lever arms, potential " + str(row), mu[row],
                 o[..., 0] * 0 + one("v") * sg[row, 0] + one("w") * sg[row, 1])


def barrier_point():
    """the sensor voltages found for two barrier potentials give exactly these barrier potentials"""
    nx, ny = dims()
    n = __dim__("n")
    sg = mat("as", 3, 2)
    __lohi__(sg[1, 1], 1, 2)
    __lohi__(sg[1, 0], 0, None)
    s = ssens(False)
    for o in (occ2(nx, ny), occ1(n)):
        s.sensor_potential(o, one("v"), one("w"), near("a"), near("b"))
        p = s._calc_point_from_barrier_potentials(pot_bar1=__atom__("t1"), pot_bar2=__atom__("t2"))
        first = o[0, 0] if o.ndim == 3 else o[0]
        for row, t in ((1, __atom__("t1")), (2, __atom__("t2"))):
            __same__("barrier potential %d of the point" % row,
                     first[0] * mat("ad", 3, 2)[row, 0] + first[1] * mat("ad", 3, 2)[row, 1] + one("v") * mat("ag", 3, 2)[row, 0]
                     + one("w") * mat("ag", 3, 2)[row, 1] + p[0] * sg[row, 0] + p[1] * sg[row, 1] + __atom__("o" + str(row)), t)


def offset_reset():
    """after the reset the potential at the start of the sweep is the target"""
    d0, d1, g0, g1, off, target = (__atom__("d0"), __atom__("d1"), __atom__("g0"), __atom__("g1"), __atom__("off"), __atom__("target"))
    v1, v2 = near("a"), near("b")
    sensor = SensorGeneric(sensor_peak_function=peak("q"), alpha_dot=np.array([d0, d1]), alpha_gate=np.array([g0, g1]), offset_mu_sens=off)
    sim = Simulation(ideal_csd_config=Ideal(), sensor=sensor)
    reset_offset_mu_sens(sim, target, v1, v2)
    o, _ = Ideal().get_csd_data(v1, v2, 2)
    __same__("potential at the start of the sweep after the reset", sim.sensor.sensor_potential(o, v1, v2)[0], target)
    __same__("reset offset", sim.sensor.offset_mu_sens, target - (o[0, 0] * d0 + o[0, 1] * d1 + v1[0] * g0 + v2[0] * g1))
