from comp import *
from p09 import Bar, peak, peak2, mat, Rise
from p10 import near, one
from p11 import occ2, occ1, dims
from p20 import Bend, PLUNGERS, DOTS, OFFSETS, SENSOR_GATES, peaks
from p21 import plain_peaks
from simcats.sensor import SensorScanSensorGeneric, SensorGeneric


class RecordedRise(Rise):
    """final rise that shows every offset it is given"""

    def sensor_function(self, mu_sens, offset=0):
        return __oparr__("rise_" + self.name, mu_sens.shape, mu_sens, np.ravel(offset)[0])


def fresh(g, rise, bent, ps=None):
    return SensorScanSensorGeneric(barrier_functions=(Bar("b1"), Bar("b2")), sensor_peak_function=peaks(2) if ps is None else ps,
                                   alpha_sensor_gate=np.array(SENSOR_GATES[g]), alpha_gate=np.array(PLUNGERS),
                                   alpha_dot=np.array(DOTS), offset_mu_sens=np.array(OFFSETS),
                                   final_rise=RecordedRise("r") if rise else None,
                                   sensor_peak_deformations={0: Bend("q"), 1: Bend("w")} if bent else None)


class Sweep:
    """one measurement: occupations and the four voltages"""

    def __init__(self, name, flat, over):
        self.name = name
        self.o = __arr__("occ" + name, ((2, 2, 2), (3, 2), (1, 2))[flat])
        a, b = near("a" + name), near("b" + name)
        self.args = (0.75, -1.25, a, b) if over == "sensor" else (a, b, 0.5, 0.25)
        if name == "2":
            self.args = (0.25, 0.5, a, b) if over == "sensor" else (a, b, -0.5, 1.25)
        if over == "nothing":
            self.args = (0.25, 0.75, -0.5, 1.25)

    def potential(self, s):
        return s.sensor_potential(self.o, *self.args)

    def labels(self, s, mu):
        return s.get_sensor_scan_labels(*self.args, potential=mu)


def expected(g, rise, bent, sweep):
    """response of the sweep by a sensor that never did anything else"""
    s = fresh(g, rise, bent)
    mu = sweep.potential(s)
    return mu, s.sensor_response(mu)


def response_twice(i):
    flat, rise, bent = i % 2, i // 2 % 2, i // 4 % 2
    w = Sweep("1", flat, "sensor")
    mu, exp = expected(i % 3, rise, bent, w)
    s = fresh(i % 3, rise, bent)
    m1 = w.potential(s)
    for k in range(3):
        __same__("response again", s.sensor_response(m1), exp)
    __same__("potential again", w.potential(s), mu)
    __same__("response after potential again", s.sensor_response(m1), exp)


def response_twice_csd(i):
    flat, rise = i % 2, i // 2 % 2
    w = Sweep("1", flat, "plunger")
    mu, exp = expected(i % 3, rise, False, w)
    s = fresh(i % 3, rise, False)
    m1 = w.potential(s)
    for k in range(3):
        __same__("response again", s.sensor_response(m1), exp)


def labels_between(i):
    """labels are generated between potential and response"""
    flat, rise, times = i % 2, i // 2 % 2, 1 + i // 4 % 2
    w = Sweep("1", flat, "sensor")
    mu, exp = expected(i % 3, rise, False, w)
    s = fresh(i % 3, rise, False)
    m1 = w.potential(s)
    for k in range(times):
        w.labels(s, m1)
    __same__("response after labels", s.sensor_response(m1), exp)
    w.labels(s, m1)
    __same__("response after labels and response", s.sensor_response(m1), exp)


def labels_between_deformed(i):
    """labels are generated between potential and response of a sensor with deformed peaks"""
    flat = i % 2
    w = Sweep("1", flat, "sensor")
    mu, exp = expected(i % 3, False, True, w)
    s = fresh(i % 3, False, True)
    m1 = w.potential(s)
    w.labels(s, m1)
    __same__("response after labels", s.sensor_response(m1), exp)


def labels_before_deformed(i):
    """labels of an earlier measurement do not change the next measurement"""
    flat = i % 2
    w = Sweep("1", flat, "sensor")
    mu, exp = expected(i % 3, False, True, w)
    s = fresh(i % 3, False, True)
    m1 = w.potential(s)
    w.labels(s, m1)
    m1 = w.potential(s)
    __same__("response of the next measurement", s.sensor_response(m1), exp)


def sequence(i):
    """a measurement after another one gives what a fresh sensor gives"""
    flat, rise, bent = i % 2, i // 2 % 2, i // 4 % 2
    first, second = (("sensor", "sensor"), ("plunger", "sensor"), ("sensor", "plunger"), ("plunger", "plunger"))[i // 8]
    a, b = Sweep("1", 1 - flat, first), Sweep("2", flat, second)
    mb, eb = expected(i % 3, rise, bent, b)
    s = fresh(i % 3, rise, bent)
    ma = a.potential(s)
    s.sensor_response(ma)
    if first == "sensor":
        a.labels(s, ma)
    m2 = b.potential(s)
    __same__("potential of the second measurement", m2, mb)
    __same__("response of the second measurement", s.sensor_response(m2), eb)


def points(i):
    """single points before and after sweeps"""
    flat, rise, bent = 1 + i % 2, i // 2 % 2, i // 4 % 2
    over = ("sensor", "plunger", "nothing")[i // 8]
    a, b = Sweep("1", flat, "sensor" if flat == 1 or over == "nothing" else over), Sweep("2", 2, over)
    if i % 3 == 0:
        a, b = b, Sweep("1", 1, "sensor")
    mb, eb = expected(i % 3, rise, bent, b)
    s = fresh(i % 3, rise, bent)
    s.sensor_response(a.potential(s))
    m2 = b.potential(s)
    __same__("potential of the second measurement", m2, mb)
    __same__("response of the second measurement", s.sensor_response(m2), eb)


def label_history(i):
    """labels after responses and other measurements"""
    flat, rise, bent = i % 2, i // 2 % 2, i // 4 % 2
    w, x = Sweep("1", flat, "sensor"), Sweep("2", flat, "sensor")
    s = fresh(i % 3, rise, bent, plain_peaks((1.5, 0.5)))
    mu = w.potential(s)
    con, pk = w.labels(s, mu)
    s = fresh(i % 3, rise, bent, plain_peaks((1.5, 0.5)))
    x.potential(s)
    m2 = w.potential(s)
    s.sensor_response(m2)
    c2, p2 = w.labels(s, m2)
    __same__("conductive mask after a response", c2, con)
    __same__("peak mask after a response", p2, pk)
    c2, p2 = w.labels(s, m2)
    __same__("conductive mask again", c2, con)
    __same__("peak mask again", p2, pk)


def simulated(i):
    """whole measurements of a simulation: each scan belongs to its own sweep"""
    flat, rise = i % 2, i // 2
    sim = Simulation(ideal_csd_config=Ideal(), sensor=fresh(i % 3, rise, False))
    res = 3 if flat else np.array([2, 2])
    for name in ("1", "2"):
        args = (near("a" + name), near("b" + name))
        scan, occ, lead, md = sim.measure_sensor_scan(args[0], args[1], 0.75, -1.25, res)[:4]
        exp_s = fresh(i % 3, rise, False)
        o = __oparr__("occ", (1, 2), 0.75, 0.75, -1.25, -1.25, (1,))
        o = np.ones(((3,) if flat else (2, 2)) + (2,))
        one_o = Ideal().get_csd_data(np.array([0.75, 0.75]), np.array([-1.25, -1.25]), 1)[0]
        o[..., 0] = o[..., 0] * one_o[0, 0]
        o[..., 1] = o[..., 1] * one_o[0, 1]
        mu = exp_s.sensor_potential(o, 0.75, -1.25, args[0], args[1])
        __same__("scan of the simulation", scan, exp_s.sensor_response(mu))
        r = sim.measure(args[0], args[1], 0.5, 0.25, res)
        exp_s = fresh(i % 3, rise, False)
        mu = exp_s.sensor_potential(r[1], args[0], args[1], 0.5, 0.25)
        __same__("stability diagram of the simulation", r[0], exp_s.sensor_response(mu))
