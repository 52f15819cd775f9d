from comp import *
import math
from p09 import peak, peak2, Bar, Rise, mat
from p10 import near, one, wide
from simcats.sensor import (SensorGeneric, SensorScanSensorGeneric, SensorPeakGaussian, SensorPeakLorentzian, SensorRiseGLF)
from simcats.sensor.barrier_function import BarrierFunctionGLF, BarrierFunctionMultiGLF
from simcats.sensor.deformation import SensorPeakDeformationLinear, SensorPeakDeformationCircle
from simcats.distortions import (OccupationDotJumps, OccupationTransitionBlurringFermiDirac, OccupationTransitionBlurringGaussian,
                                 SensorPotentialPinkNoise, SensorResponseWhiteNoise, SensorPotentialRTN, SensorResponseRTN,
                                 RandomTelegraphNoise)
from simcats.ideal_csd import IdealCSDGeometric
from simcats.ideal_csd.geometric import (ideal_csd_geometric, tct_bezier, calculate_all_bezier_anchors, initialize_tct_functions,
                                         generate_lead_transition_mask_1d, generate_lead_transition_mask_2d,
                                         get_electron_occupation)
from simcats.support_functions import (fermi_filter1d, glf, inverse_glf, multi_glf, rotate_points, signed_dist_points_line,
                                       pixel_to_volt_1d, plot_csd, reset_offset_mu_sens, multi_sigmoid_cdf, multi_cauchy_cdf,
                                       sigmoid_cdf, cauchy_cdf)
from simcats.support_functions._linear_algebra import line_line_intersection, line_circle_intersection, is_point_below_line
from simcats.distortions._pink_noise import pink_gaussian_noise
from simcats.distortions._white_noise import white_gaussian_noise
from simcats.distortions._random_telegraph_noise import random_telegraph_noise


def keeps(label, args, thunk):
    """after thunk every array or list in args still holds exactly what it held before"""
    before = __snap__(args)
    r = thunk()
    for i in range(len(args)):
        __unchanged__(label + " argument " + str(i), args[i], before)
    return r


def occ2(nx, ny):
    return __arr__("occ2", (ny, nx, 2))


def occ1(n):
    return __arr__("occ1", (n, 2))


def dims():
    nx, ny = __dim__("nx"), __dim__("ny")
    __lohi__(nx, 2, None)
    __lohi__(ny, 2, None)
    return nx, ny


def measure_csd():
    for sensor in (Plain(), Scan(), Stacked()):
        o, p, q = [OccD("A"), OccD("B")], [PotD("P")], [RespD("R")]
        ideal = Ideal()
        l1, l2, s1, s2 = wide("L1"), wide("L2"), wide("S1"), wide("S2")
        sim = Simulation(volt_limits_g1=l1, volt_limits_g2=l2, volt_limits_sensor_g1=s1, volt_limits_sensor_g2=s2, ideal_csd_config=ideal,
                         sensor=sensor, occupation_distortions=o, sensor_potential_distortions=p, sensor_response_distortions=q)
        v1, v2 = near("a"), near("b")
        for r in (res2(), [__dim__("nx"), __dim__("ny")]):
            keeps("2D measurement", [v1, v2, r, l1, l2, s1, s2, ideal, sensor, o, p, q], lambda: sim.measure(v1, v2, one("v"), one("w"), r))
        r = np.array([__dim__("n")])
        keeps("1D measurement", [v1, v2, r, l1, l2, s1, s2, ideal, sensor, o, p, q], lambda: sim.measure(v1, v2, None, None, r))
        x = one("x")
        v3 = np.array([x, x])
        keeps("1D measurement of gate 1", [v1, v3, r], lambda: sim.measure(v1, v3, None, None, r))
        keeps("1D measurement of gate 2", [v3, v2], lambda: sim.measure(v3, v2, None, None, __dim__("n")))
        w1, w2 = [v1[0], v1[1]], (v2[0], v2[1])
        keeps("measurement with lists", [w1, w2], lambda: sim.measure(w1, w2, None, None, __dim__("n")))


def measure_scan():
    for sensor in (Scan(), Stacked()):
        o, p, q = [OccD("A"), OccD("B")], [PotD("P")], [RespD("R")]
        ideal = Ideal()
        l1, l2, s1, s2 = wide("L1"), wide("L2"), wide("S1"), wide("S2")
        sim = Simulation(volt_limits_g1=l1, volt_limits_g2=l2, volt_limits_sensor_g1=s1, volt_limits_sensor_g2=s2, ideal_csd_config=ideal,
                         sensor=sensor, occupation_distortions=o, sensor_potential_distortions=p, sensor_response_distortions=q)
        v1, v2, r, r1 = near("a"), near("b"), res2(), np.array([__dim__("n")])
        keeps("2D scan", [v1, v2, r, l1, l2, s1, s2, ideal, sensor, o, p, q], lambda: sim.measure_sensor_scan(v1, v2, one("v"), one("w"), r))
        keeps("2D scan without plungers", [v1, v2, r], lambda: sim.measure_sensor_scan(v1, v2, None, None, r))
        keeps("1D scan", [v1, v2, r1], lambda: sim.measure_sensor_scan(v1, v2, one("v"), one("w"), r1))


def generic_sensor():
    nx, ny = dims()
    n = __dim__("n")
    ps, d, g = [peak("q"), peak2("w")], np.array([__atom__("d0"), __atom__("d1")]), np.array([__atom__("g0"), __atom__("g1")])
    for peaks in (ps, None):
        s = SensorGeneric(sensor_peak_function=peaks, alpha_dot=d, alpha_gate=g, offset_mu_sens=__atom__("off"))
        v1, v2 = near("a"), near("b")
        for o in (occ2(nx, ny), occ1(n)):
            mu = keeps("generic potential", [o, v1, v2, d, g, ps, s], lambda: s.sensor_potential(o, v1, v2))
            keeps("generic response", [mu, o, s], lambda: s.sensor_response(mu))
            keeps("generic response by keyword", [mu, s], lambda: s.sensor_response(mu_sens=mu))


def glf_rise():
    p = [__atom__("rise%d" % k) for k in range(4)]
    return SensorRiseGLF(p[0], p[1], p[2], p[3], 1, 1)


def ssens(deform, rise=True, peaks=True):
    d = None
    if deform:
        d = {0: SensorPeakDeformationLinear(angle=__atom__("angle")), 1: SensorPeakDeformationCircle(radius=__atom__("radius"))}
    return SensorScanSensorGeneric(barrier_functions=(Bar("b1"), Bar("b2")), sensor_peak_function=[peak("q"), peak2("w")] if peaks else None,
                                   alpha_sensor_gate=mat("as", 3, 2), alpha_gate=mat("ag", 3, 2), alpha_dot=mat("ad", 3, 2),
                                   offset_mu_sens=np.array([__atom__("o0"), __atom__("o1"), __atom__("o2")]),
                                   final_rise=(Rise("r") if peaks else glf_rise()) if rise else None, sensor_peak_deformations=d)


def scan_sensor_csd():
    nx, ny = dims()
    n = __dim__("n")
    for s in (ssens(False), ssens(False, False), ssens(False, peaks=False), ssens(False, False, False)):
        v1, v2 = near("a"), near("b")
        for o in (occ2(nx, ny), occ1(n)):
            mu = keeps("potential of a diagram", [o, v1, v2], lambda: s.sensor_potential(o, v1, v2, one("v"), one("w")))
            keeps("response of a diagram", [mu, o, v1, v2], lambda: s.sensor_response(mu))
            mu = keeps("potential of a diagram without sensor voltages", [o, v1, v2], lambda: s.sensor_potential(o, v1, v2, None, None))
            keeps("response of a diagram without sensor voltages", [mu, o, v1, v2], lambda: s.sensor_response(mu))


def scan_sensor_scan():
    nx, ny = dims()
    n = __dim__("n")
    for s in (ssens(False), ssens(False, False), ssens(False, peaks=False), ssens(False, False, False)):
        v1, v2 = near("a"), near("b")
        for o in (occ2(nx, ny), occ1(n)):
            mu = keeps("potential of a scan", [o, v1, v2], lambda: s.sensor_potential(o, one("v"), one("w"), v1, v2))
            keeps("response of a scan", [mu, o, v1, v2], lambda: s.sensor_response(mu))
            keeps("labels of a scan", [mu, o, v1, v2], lambda: s.get_sensor_scan_labels(one("v"), one("w"), v1, v2, mu))


def scan_sensor_deformed_1d():
    n = __dim__("n")
    s = ssens(True)
    v1, v2 = near("a"), near("b")
    o = occ1(n)
    mu = keeps("potential of a deformed scan", [o, v1, v2], lambda: s.sensor_potential(o, one("v"), one("w"), v1, v2))
    keeps("response of a deformed scan", [mu, o, v1, v2], lambda: s.sensor_response(mu))
    keeps("labels of a deformed scan", [mu, o, v1, v2], lambda: s.get_sensor_scan_labels(one("v"), one("w"), v1, v2, mu))
    __same__("peak centre after deformed response", s.sensor_peak_function[0].mu0, __atom__("q_mu0"))
    __same__("second peak centre after deformed response", s.sensor_peak_function[1].mu0, __atom__("w_mu0"))


def scan_sensor_deformed_2d():
    nx, ny = dims()
    s = ssens(True)
    v1, v2 = near("a"), near("b")
    o = occ2(nx, ny)
    mu = keeps("potential of a deformed scan", [o, v1, v2], lambda: s.sensor_potential(o, one("v"), one("w"), v1, v2))
    keeps("response of a deformed scan", [mu, o, v1, v2], lambda: s.sensor_response(mu))
    keeps("labels of a deformed scan", [mu, o, v1, v2], lambda: s.get_sensor_scan_labels(one("v"), one("w"), v1, v2, mu))
    __same__("peak centre after deformed response", s.sensor_peak_function[0].mu0, __atom__("q_mu0"))
    __same__("second peak centre after deformed response", s.sensor_peak_function[1].mu0, __atom__("w_mu0"))


def shapes():
    n = __dim__("n")
    x = __arr__("x", (n,))
    x2 = __arr__("x2", (__dim__("m"), n))
    for a in (x, x2):
        p1, p2 = peak("q"), peak2("w")
        keeps("gaussian peak", [a, p1], lambda: p1.sensor_function(a))
        keeps("lorentzian peak", [a, p2], lambda: p2.sensor_function(a))
        r = SensorRiseGLF(mu0=__atom__("mu0"), asymptote_left=__atom__("al"), asymptote_right=__atom__("ar"), growth_rate=__atom__("gr"),
                          asymmetry=0.5, shape_factor=__atom__("sf"))
        keeps("rise", [a, r], lambda: r.sensor_function(a, __atom__("off")))
        b = BarrierFunctionGLF(0.01, 0.99, __atom__("al"), __atom__("ar"), __atom__("gr"), 0.5, __atom__("sf"))
        keeps("barrier", [a, b], lambda: b.get_value(a))
        m = BarrierFunctionMultiGLF(__atom__("po"), __atom__("fc"), *[__atom__("p" + str(i)) for i in range(7)])
        keeps("multi barrier", [a, m], lambda: m.get_value(a))
        s = ssens(True)
        for i in (0, 1):
            d = s.sensor_peak_deformations[i]
            keeps("deformation " + str(i), [a], lambda: d.calc_mu(a, __atom__("mu0")))
        keeps("glf", [a], lambda: glf(a, __atom__("al"), __atom__("ar"), __atom__("gr"), 0.5, __atom__("sf")))
        keeps("inverse glf", [a], lambda: inverse_glf(a, __atom__("al"), __atom__("ar"), __atom__("gr"), 0.5, __atom__("sf")))
        keeps("multi glf", [a], lambda: multi_glf(a, 1, 2, 3, 4, 5, 6, 7))
        keeps("sigmoid", [a], lambda: sigmoid_cdf(a, __atom__("x0"), __atom__("gam")))
        keeps("cauchy", [a], lambda: cauchy_cdf(a, __atom__("x0"), __atom__("gam")))
        params = [__atom__("x0"), __atom__("g0"), __atom__("x1"), __atom__("g1")]
        keeps("multi sigmoid", [a, params], lambda: multi_sigmoid_cdf(a, params))
        keeps("multi cauchy", [a, params], lambda: multi_cauchy_cdf(a, params))
        keeps("fermi filter", [a], lambda: fermi_filter1d(a, __atom__("sigma")))
        keeps("fermi filter with radius", [a], lambda: fermi_filter1d(a, __atom__("sigma"), radius=5))
    params = np.array([__atom__("x0"), __atom__("g0"), __atom__("x1"), __atom__("g1")])
    keeps("multi sigmoid (array)", [x, params], lambda: multi_sigmoid_cdf(x, params))
    keeps("multi cauchy (array)", [x, params], lambda: multi_cauchy_cdf(x, params))


def noise_2d():
    nx, ny = dims()
    for noise_args in ((near("a"), near("b")), (near("b")[::-1], near("a")[::-1])):
        v1, v2 = noise_args
        a = __arr__("signal", (ny, nx))
        for name, f in noises():
            r = keeps(name, [a, v1, v2], lambda: f(a, v1, v2))


def noise_1d():
    n = __dim__("n")
    x = one("x")
    for v1, v2 in ((near("a"), near("b")), (np.array([x, x]), near("b")), (near("a"), np.array([x, x]))):
        a = __arr__("signal", (n,))
        for name, f in noises():
            keeps(name, [a, v1, v2], lambda: f(a, v1, v2))


def noises():
    g = __rng__("g")
    sigma = __atom__("sigma")
    __lohi__(sigma, 0, None)
    scale, std, height = __atom__("scale"), __atom__("std"), __atom__("height")
    __lohi__(scale, 0, None)
    __lohi__(std, 0, None)
    return [("pink noise", SensorPotentialPinkNoise(sigma=sigma, rng=g).noise_function),
            ("white noise", SensorResponseWhiteNoise(sigma=sigma, rng=g).noise_function),
            ("potential telegraph noise", SensorPotentialRTN(scale, std, height, 0.5, g).noise_function),
            ("response telegraph noise", SensorResponseRTN(scale, std, height, 0.5, g).noise_function),
            ("telegraph noise", RandomTelegraphNoise(scale, std, height, 0.5, g).noise_function),
            ("pink noise function", lambda a, v1, v2: pink_gaussian_noise(a, sigma, 0, g)),
            ("white noise function", lambda a, v1, v2: white_gaussian_noise(a, sigma, g)),
            ("telegraph noise function", lambda a, v1, v2: random_telegraph_noise(a, scale, std, height, g))]


def occupation_distortion_limits():
    """occupation distortions may change the occupation and transition arrays, nothing else"""
    nx, ny = dims()
    sigma = __atom__("sigma")
    __lohi__(sigma, 0, None)
    for v1, v2 in ((near("a"), near("b")), (near("b")[::-1], near("a")[::-1])):
        for d in (OccupationTransitionBlurringFermiDirac(sigma), OccupationTransitionBlurringGaussian(sigma)):
            o, t = occ2(nx, ny), __arr__("lt2", (ny, nx))
            keeps("blurring 2D", [v1, v2, t], lambda: d.noise_function(o, t, v1, v2))
            o, t = occ1(nx), __arr__("lt1", (nx,))
            keeps("blurring 1D", [v1, v2, t], lambda: d.noise_function(o, t, v1, v2))


def dot_jump_limits():
    nx, ny = dims()
    for axis in (0, 1):
        for v1, v2 in ((near("a"), near("b")), (near("b")[::-1], near("a")[::-1])):
            j = OccupationDotJumps(scale=__atom__("scale"), lam=__atom__("lam"), axis=axis, ratio=1, rng=__rng__("g"))
            o, t = occ2(nx, ny), __arr__("lt2", (ny, nx))
            gen = lambda a, b, r: (__oparr__("gocc", shape_of(r) + (2,), a, b), __oparr__("glt", shape_of(r), a, b))
            keeps("dot jumps 2D axis " + str(axis), [v1, v2], lambda: j.noise_function(o, t, v1, v2, gen))
            o, t = occ1(nx), __arr__("lt1", (nx,))
            keeps("dot jumps 1D axis " + str(axis), [v1, v2], lambda: j.noise_function(o, t, v1, v2, gen))


def tct_list():
    return [tct(i) for i in range(3)]


TCTS = [[0.05, 0.04, -0.5, -2, -0.3, -0.20, -0.29, -0.21], [0.05, 0.04, -0.5, -2, -0.3, -0.10, -0.29, -0.11],
        [0.05, 0.04, -0.5, -2, -0.3, 0.0, -0.29, -0.01]]


def tct(name=0):
    """parameters of a transition: [length left, length right, gradient left, gradient right, x left, y left, x right, y right]"""
    return np.array(TCTS[name])


def ideal_1d():
    n = __dim__("n")
    t = tct_list()
    r = np.array([n])
    x = one("x")
    for v1, v2 in ((near("a"), near("b")), (np.array([x, x]), near("b"))):
        for cdf in ("sigmoid", "cauchy"):
            c = IdealCSDGeometric(tct_params=t, lut_entries=1000, cdf_type=cdf)
            keeps("ideal diagram 1D " + cdf, [v1, v2, t, c, r], lambda: c.get_csd_data(v1, v2, r))
    keeps("ideal diagram 1D function", [v1, v2, t], lambda: ideal_csd_geometric(t, v1, v2, n))


def ideal_2d():
    t = tct_list()
    r = res2()
    v1, v2 = near("a"), near("b")
    for cdf in ("sigmoid", "cauchy"):
        c = IdealCSDGeometric(tct_params=t, lut_entries=1000, cdf_type=cdf)
        keeps("ideal diagram 2D " + cdf, [v1, v2, t, c, r], lambda: c.get_csd_data(v1, v2, r))


def transition_curve():
    n = __dim__("n")
    p = tct()
    x = __arr__("x_eval", (n,))
    keeps("transition curve (table)", [p, x], lambda: tct_bezier(p, x, 1000, 2))
    keeps("transition curve (table, unbounded)", [p, x], lambda: tct_bezier(p, x, 1000))
    keeps("transition curve (implicit)", [p, x], lambda: tct_bezier(p, x, None, 2))
    keeps("transition curve of one value", [p], lambda: tct_bezier(p, __atom__("x"), 1000, 2))


def anchors():
    t = tct_list()
    keeps("bezier anchors", [t], lambda: calculate_all_bezier_anchors(t))
    keeps("bezier anchors of one", [t], lambda: calculate_all_bezier_anchors(t[0], 2))
    l = [list(TCTS[0]), list(TCTS[1])]
    keeps("bezier anchors of lists", [l], lambda: calculate_all_bezier_anchors(l))
    m = np.array(l)
    keeps("bezier anchors of a matrix", [m], lambda: calculate_all_bezier_anchors(m))
    keeps("transition functions", [t], lambda: initialize_tct_functions(t))
    keeps("transition functions of one", [t], lambda: initialize_tct_functions(t[0], 2))


def masks():
    nx, ny = dims()
    o = __arr__("occ1", (nx, 2))
    keeps("1D transition mask", [o], lambda: generate_lead_transition_mask_1d(o))
    c = __arr__("csd", (ny, nx))
    v1, v2 = near("a"), near("b")
    funcs = {1: lambda x_eval, lut_entries: __oparr__("tct1", x_eval.shape, x_eval), 2: lambda x_eval, lut_entries: __oparr__("tct2", x_eval.shape, x_eval)}
    keeps("2D transition mask", [c, v1, v2, funcs], lambda: generate_lead_transition_mask_2d(c, v1, v2, funcs))


def occupation_1d():
    n = __dim__("n")
    t = tct_list()
    b = calculate_all_bezier_anchors(t)
    c = __arr__("csd", (n,))
    v1, v2 = near("a"), near("b")
    for typ in ("sigmoid", "cauchy"):
        funcs = {2: lambda x_eval, lut_entries: __oparr__("tct2", x_eval.shape, x_eval),
                 1: lambda x_eval, lut_entries: __oparr__("tct1", x_eval.shape, x_eval)}
        keeps("1D occupations", [c, v1, v2, funcs, b], lambda: get_electron_occupation(c, v1, v2, b, funcs, cdf_type=typ))


def geometry():
    n = __dim__("n")
    p = __arr__("points", (n, 2))
    l = mat("line", 2, 2)
    keeps("rotate", [p], lambda: rotate_points(p, __atom__("angle")))
    keeps("rotate one", [l], lambda: rotate_points(l[0], __atom__("angle")))
    keeps("distance", [p, l], lambda: signed_dist_points_line(p, l))
    v = near("a")
    keeps("pixel to volt", [v], lambda: pixel_to_volt_1d(__dim__("k"), __dim__("n"), v))
    l1, l2 = [__atom__("m1"), __atom__("b1")], np.array([__atom__("m2"), __atom__("b2")])
    keeps("line intersection", [l1, l2], lambda: line_line_intersection(l1, l2))
    keeps("line intersection with a vertical", [l1], lambda: line_line_intersection(l1, __atom__("x")))


def plots():
    nx, ny = dims()
    labels = ["x", "y"]
    for v1, v2 in ((near("a"), near("b")), (near("b")[::-1], near("a")[::-1])):
        for sort in (True, False):
            a = __arr__("csd2", (ny, nx))
            keeps("plot 2D", [a, v1, v2, labels], lambda: plot_csd(a, v1, v2, gate_labels=labels, sort_volts=sort))
            a = __arr__("csd1", (nx,))
            keeps("plot 1D", [a, v1, v2, labels], lambda: plot_csd(a, v1, v2, gate_labels=labels, sort_volts=sort))
            w1, w2 = [v1[0], v1[1]], [v2[0], v2[1]]
            keeps("plot with lists", [w1, w2], lambda: plot_csd(a, w1, w2, sort_volts=sort))


def offset_reset():
    sim = Simulation(ideal_csd_config=Ideal(), sensor=SensorGeneric(alpha_dot=np.array([__atom__("d0"), __atom__("d1")])))
    v1, v2 = near("a"), near("b")
    keeps("offset reset", [v1, v2], lambda: reset_offset_mu_sens(sim, __atom__("target"), v1, v2))


def twice():
    """evaluating the same array twice starts from the same input"""
    nx, ny = dims()
    a = __arr__("signal", (ny, nx))
    s = SensorGeneric(sensor_peak_function=[peak("q"), peak2("w")])
    __same__("generic response twice", s.sensor_response(a), s.sensor_response(a))
    v1, v2 = near("a"), near("b")
    o = occ2(nx, ny)
    __same__("generic potential twice", s.sensor_potential(o, v1, v2), s.sensor_potential(o, v1, v2))
    t = ssens(False)
    mu = t.sensor_potential(o, one("v"), one("w"), v1, v2)
    __same__("scan potential twice", t.sensor_potential(o, one("v"), one("w"), v1, v2), mu)
    __same__("scan response twice", t.sensor_response(mu), t.sensor_response(mu))
