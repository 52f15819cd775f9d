"""components that are used, reconfigured and used again: only the configuration of the moment counts"""
from p30 import *
from p22 import SensorScanSensorGeneric, SENSOR_GATES, PLUNGERS, DOTS, OFFSETS, RecordedRise
import simcats.ideal_csd.geometric._ideal_csd_geometric as ideal


def same_calls(label, a, b):
    """the same questions were asked to two generators"""
    __check__(label + ": number of draws", len(a) == len(b))
    for x, y in zip(a, b):
        __check__(label + ": kind of draw", x[0] == y[0] and len(x) == len(y))
        for k in range(1, len(x)):
            if x[k] is not None and not isinstance(x[k], tuple):
                __same__(label + ": parameter of a draw", x[k], y[k])


def additive_reassigned(i):
    k = i % 2
    v1, v2, shape = grid(i // 2 % 6)
    data = plain(v1, v2, shape)
    s, t = bounded("s", 6, 10), bounded("t", 2, 4)
    d = make(k, t, Gen(1))
    if k == 0:
        d.fmin = __atom__("fmin2")
    apply(k, d, data, v1, v2)
    e = make(k, s, Gen(1))
    d.sigma, d.rng = s, Gen(1)
    if k == 0:
        d.fmin = __atom__("fmin")
    r = apply(k, d, data, v1, v2)
    __same__("noise after assigning other parameters", r, apply(k, e, data, v1, v2))
    same_calls("noise after assigning other parameters", d.rng.calls, e.rng.calls)


def telegraph_reassigned(i):
    cls = RTN[i % 3]
    v1, v2, shape = grid(i // 3 % 4)
    data = plain(v1, v2, shape)
    s = bounded("s", 6, 10)
    d = cls(scale=bounded("s2", 2, 4), std=bounded("std2", 3, 4), height=bounded("height2", 3, 4), ratio=bounded("ratio2", 0.2, 0.8),
            rng=Gen(1, BURSTS, ()))
    d.noise_function(data, v1, v2)
    e = rtn(cls, s)
    d.scale, d.std, d.height, d.ratio, d.rng = s, bounded("std", 1, 2), bounded("height", 1, 2), ratio(), Gen(1, BURSTS, ())
    r = d.noise_function(data, v1, v2)
    __same__("noise after assigning other parameters", r, e.noise_function(data, v1, v2))
    same_calls("noise after assigning other parameters", d.rng.calls, e.rng.calls)


def blurring_reassigned(i):
    cls = BLUR[i % 2]
    v1, v2, shape = grid(i // 2 % 4)
    s = bounded("s", 0.1, 1)
    d = cls(sigma=bounded("s2", 2, 3))
    o, t = fields(v1, v2, shape)
    d.noise_function(o, t, v1, v2)
    d.sigma = s
    o, t = fields(v1, v2, shape)
    eo, et = fields(v1, v2, shape)
    d.noise_function(o, t, v1, v2)
    cls(sigma=s).noise_function(eo, et, v1, v2)
    __same__("blurred occupations after assigning another width", o, eo)
    __same__("transitions after assigning another width", t, et)


def jumping_reassigned(i):
    axis = i % 2
    pat = i // 2 % 3
    v1, v2 = limits("a", True), limits("b", True)
    shape = shape2d(axis)
    d = jumper(1 - axis, (pat + 1) % 3)
    d.scale, d.lam, d.ratio = bounded("scale2", 6, 10), bounded("lam2", 3, 4), __atom__("ratio2")
    o, t = fields(v1, v2, shape2d(1 - axis))
    d.noise_function(o, t, v1, v2, region)
    e = jumper(axis, pat)
    d.scale, d.lam, d.ratio, d.axis, d.rng = e.scale, e.lam, e.ratio, axis, jumper(axis, pat).rng
    o, t = fields(v1, v2, shape)
    eo, et = fields(v1, v2, shape)
    d.noise_function(o, t, v1, v2, region)
    e.noise_function(eo, et, v1, v2, region)
    __same__("occupations after assigning other parameters", o, eo)
    __same__("transitions after assigning other parameters", t, et)
    same_calls("jumps after assigning other parameters", d.rng.calls, e.rng.calls)


def ideal_reassigned(i):
    if not hasattr(ideal, "initialize_tct_functions"):
        return
    ideal.initialize_tct_functions = fake_functions
    rot, kind = (0, -np.pi / 2)[i % 2], ("sigmoid", "cauchy")[i // 2 % 2]
    v1, v2 = sweep("a"), sweep("b")
    e = device(rot, kind)
    eo, et = e.get_csd_data(v1, v2, 2)
    d = IdealCSDGeometric(tct_params=[Geo(SLOPES[1], "c").params(), Geo(SLOPES[3], "d").params()], rotation=np.pi / 2, lut_entries=7,
                          cdf_type=("cauchy", "sigmoid")[i // 2 % 2], cdf_gamma_factor=3)
    d.get_csd_data(v1, v2, 3)
    d.rotation, d.cdf_type, d.lut_entries, d.cdf_gamma_factor = rot, kind, 5, None
    d.get_csd_data(v1, v2, 3)
    d.get_csd_data(v1, v2, 2)
    new = [Geo(SLOPES[0], "a").params(), Geo(SLOPES[2], "b").params()]
    if i // 4 == 0:
        d.tct_params = new
    else:
        # the parameters of the transitions that are there are changed
        for k in range(2):
            for j in range(8):
                d.tct_params[k][j] = new[k][j]
    o, t = d.get_csd_data(v1, v2, 2)
    __same__("occupations after assigning other parameters", o, eo)
    __same__("transitions after assigning other parameters", t, et)


def curve_reassigned(i):
    """transition functions that are made again after the parameters changed"""
    if not stubs():
        return
    p, q = Geo(SLOPES[i], "a").params(), Geo(SLOPES[(i + 1) % 4], "b").params()
    x = np.array([Geo(SLOPES[i], "a").x0 - part("u")])
    e = initialize_tct_functions([p.copy()], max_peaks=1)[1](x_eval=x, lut_entries=5).copy()
    w = q.copy()
    initialize_tct_functions([w], max_peaks=1)[1](x_eval=x, lut_entries=5)
    for j in range(8):
        w[j] = p[j]
    __same__("curve after its parameters changed", initialize_tct_functions([w], max_peaks=1)[1](x_eval=x, lut_entries=5), e)
    __same__("curve evaluated directly", tct_bezier(w, x, 5, 1), e)


def generic_reassigned(i):
    a, b = request(i % 4, "1"), request((i + 1) % 4, "2")
    oa, ob = fields(*a)[0], fields(*b)[0]
    e = generic()
    mu = e.sensor_potential(ob, b[0], b[1]).copy()
    r = e.sensor_response(mu).copy()
    s = SensorGeneric(sensor_peak_function=[peak("z"), peak2("w")] if i % 2 else peak("z"), alpha_dot=np.array([__atom__("d2"), __atom__("d3")]),
                      alpha_gate=np.array([__atom__("g2"), __atom__("g3")]), offset_mu_sens=__atom__("off2"))
    s.sensor_response(s.sensor_potential(oa, a[0], a[1]))
    s.alpha_dot, s.alpha_gate, s.offset_mu_sens = e.alpha_dot, e.alpha_gate, __atom__("off")
    if i % 2:
        for n in ("mu0", "sigma", "height", "offset"):
            setattr(s.sensor_peak_function[0], n, getattr(peak("q"), n))
    else:
        s.sensor_peak_function = [peak("q"), peak2("w")]
    m = s.sensor_potential(ob, b[0], b[1])
    __same__("potential after assigning other parameters", m, mu)
    __same__("response after assigning other parameters", s.sensor_response(m), r)


def scan_reassigned(i):
    flat, rise, over = i % 2, i // 2 % 2, ("sensor", "plunger")[i // 4 % 2]
    w, u = Sweep("1", flat, over), Sweep("2", 1 - flat, over)
    e = fresh(i % 3, rise, False)
    mu = w.potential(e).copy()
    r = e.sensor_response(mu).copy()
    s = SensorScanSensorGeneric(barrier_functions=(Bar("b3"), Bar("b4")), sensor_peak_function=[peak("z"), peak2("w")],
                                alpha_sensor_gate=np.array(SENSOR_GATES[(i + 1) % 3]), alpha_gate=np.array(DOTS), alpha_dot=np.array(PLUNGERS),
                                offset_mu_sens=0.5, final_rise=None if rise else RecordedRise("x"))
    s.sensor_response(u.potential(s))
    s.sensor_response(w.potential(s))
    s.alpha_sensor_gate, s.alpha_gate, s.alpha_dot, s.offset_mu_sens = e.alpha_sensor_gate, e.alpha_gate, e.alpha_dot, e.offset_mu_sens
    s.barrier_functions = (Bar("b1"), Bar("b2"))
    s.final_rise = RecordedRise("r") if rise else None
    if i // 8:
        for n in ("mu0", "sigma", "height", "offset"):
            setattr(s.sensor_peak_function[0], n, getattr(peak("q"), n))
    else:
        s.sensor_peak_function = peaks(2)
    m = w.potential(s)
    __same__("potential after assigning other parameters", m, mu)
    __same__("response after assigning other parameters", s.sensor_response(m), r)
    if over == "sensor":
        __same__("labels after assigning other parameters", w.labels(s, m)[0], w.labels(e, mu)[0])


def simulation_reassigned(i):
    first, second = KINDS[i % 3], KINDS[i // 3]
    e = [x.copy() if isinstance(x, np.ndarray) else x for x in outcome(built(), second, "2")]
    sim = Simulation(ideal_csd_config=Ideal(), sensor=Scan("z"), occupation_distortions=[OccD("q")],
                     sensor_potential_distortions=[], sensor_response_distortions=[RespD("w"), RespD("u"), RespD("h")])
    outcome(sim, first, "1")
    sim.sensor = Scan("s")
    sim.ideal_csd_config = Ideal()
    sim.occupation_distortions = [OccD("x"), OccD("y")]
    sim.sensor_potential_distortions = [PotD("u"), PotD("v")]
    sim.sensor_response_distortions = [RespD("r"), RespD("t")]
    r = outcome(sim, second, "2")
    for j in range(len(e)):
        __same__("result %d after assigning other parts" % j, r[j], e[j])
