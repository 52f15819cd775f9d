from noise import *
from simcats.sensor import SensorPeakGaussian, SensorPeakLorentzian, SensorRiseGLF
from simcats.sensor.barrier_function import BarrierFunctionGLF, BarrierFunctionMultiGLF
from simcats.sensor.deformation import SensorPeakDeformationLinear, SensorPeakDeformationCircle
from simcats.ideal_csd import IdealCSDGeometric
import simcats.ideal_csd.geometric._ideal_csd_geometric_class as ideal_module


# ---------------------------------------------------------------- documented formulas
def glf(x, asymptote_left, asymptote_right, growth_rate, asymmetry, shape_factor, denominator_offset, offset):
    return asymptote_left + (asymptote_right - asymptote_left) / (
        denominator_offset + shape_factor * np.exp(-growth_rate * (x - offset))) ** (1 / asymmetry)


def glf_inverse(y, asymptote_left, asymptote_right, growth_rate, asymmetry, shape_factor, denominator_offset, offset):
    return offset - np.log((((asymptote_right - asymptote_left) / (y - asymptote_left)) ** asymmetry - denominator_offset)
                           / shape_factor) / growth_rate


def gaussian(d, p):
    x = probe()
    __same__("response", d.sensor_function(x), p["offset"] + p["height"] * np.exp(-((x - p["mu0"]) / p["sigma"]) ** 2))


def lorentzian(d, p):
    x = probe()
    h = p["gamma"]
    __same__("response", d.sensor_function(x), p["offset"] + p["height"] * h ** 2 / ((x - p["mu0"]) ** 2 + h ** 2))


SHAPE = ("asymptote_left", "asymptote_right", "growth_rate", "asymmetry", "shape_factor", "denominator_offset")


def rise(d, p):
    x = probe()
    s = [p[n] for n in SHAPE]
    fc = glf_inverse((p["asymptote_right"] - p["asymptote_left"]) * p["fully_conductive_percentage"] + p["asymptote_left"],
                     *s, p["mu0"])
    __same__("fully conductive point", d.fully_conductive, fc)
    o = __atom__("shift")
    __same__("response", d.sensor_function(x, o), glf(x, *s, p["mu0"] - fc + o))


def barrier(d, p):
    x = probe()
    s = [p[n] for n in SHAPE]
    lo, hi = p["asymptote_left"], p["asymptote_right"]
    __same__("value", d.get_value(x), glf(x, *s, p["offset"]))
    __same__("pinch off", d.pinch_off, glf_inverse((hi - lo) * p["pinch_off_percentage"] + lo, *s, p["offset"]))
    __same__("fully conductive point", d.fully_conductive,
             glf_inverse((hi - lo) * p["fully_conductive_percentage"] + lo, *s, p["offset"]))


def multi(d, p):
    x = probe()
    q = p["params"]
    r = 0
    for k in range(0, len(q), 7):
        r = r + glf(x, *q[k:k + 7])
    __same__("value", d.get_value(x), r)


class Attached:
    """just enough of a sensor for a deformation"""

    def __init__(self):
        self.alpha_sensor_gate = np.array([[__atom__("s00", "posfloat"), __atom__("s01", "posfloat")],
                                           [__atom__("s10"), __atom__("s11")], [__atom__("s20"), __atom__("s21")]])


def linear(d, p):
    s = Attached()
    d.sensor = s
    __ident__("sensor", d.sensor, s)
    x, m = probe(), __atom__("mu")
    n = (s.alpha_sensor_gate[0][0] ** 2 + s.alpha_sensor_gate[0][1] ** 2) ** 0.5
    __same__("centre", d.calc_mu(x, m), m + x * n / np.tan(p["angle"]))


def circle(d, p):
    s = Attached()
    d.sensor = s
    m = __atom__("mu")
    n = (s.alpha_sensor_gate[0][0] ** 2 + s.alpha_sensor_gate[0][1] ** 2) ** 0.5
    r = p["radius"] / n
    __same__("centre on the potential axis", d.calc_mu(0.0, m), m)

    __same__("centre far away", d.calc_mu(far() * p["radius"], m), m - r)
    __same__("centre half way out", d.calc_mu(r * 0.5, m), m - (r - (r ** 2 - (r * 0.5) ** 2) ** 0.5))
    __same__("centre far away on the other side", d.calc_mu(-far() * p["radius"], m), m - r)


def far():
    return __atom__("norm_bound", "posfloat") * 0 + 1000


def probe():
    return __arr__("x", (3,))


def stub(tct_params, volt_limits_g1, volt_limits_g2, resolution=np.array([100, 100]), rotation=-np.pi / 4, lut_entries=None,
         cdf_type="sigmoid", cdf_gamma_factor=None):
    return ("result", tct_params, volt_limits_g1, volt_limits_g2, resolution, rotation, lut_entries, cdf_type, cdf_gamma_factor)


def ideal(d, p):
    ideal_module.ideal_csd_geometric = stub
    v1, v2 = limits("a", True), limits("b", True)
    m = np.array([__dim__("m"), __dim__("n")])
    r = d.get_csd_data(v1, v2, m)
    if isinstance(r, tuple) and len(r) == 9 and r[0] == "result":
        __same__("transitions used", r[1], p["tct_params"])
        __same__("voltages of gate 1 used", r[2], v1)
        __same__("voltages of gate 2 used", r[3], v2)
        __same__("resolution used", r[4], m)
        __same__("rotation used", r[5], p["rotation"])
        __same__("table size used", r[6], p["lut_entries"])
        __same__("transition shape used", r[7], p["cdf_type"])
        __same__("transition width used", r[8], p["cdf_gamma_factor"])


def nothing(d, p):
    pass


# ---------------------------------------------------------------- components
def fl(name, lo=None, hi=None):
    return lambda k: __atom__(name + k) if lo is None else bounded(name + k, lo + (0.01 if k == "b" else 0), hi)


def glfpars(*more):
    return [("asymptote_left", fl("al", 0.1, 0.2)), ("asymptote_right", fl("ar", 1.5, 2)), ("growth_rate", fl("gr", 0.5, 2)),
            ("asymmetry", fl("as", 0.5, 2)), ("shape_factor", fl("sf", 0.5, 2)), ("denominator_offset", fl("do", 0.9, 1.1))]


def rng(k):
    return Gen(1)


COMPONENTS = [
    (SensorPeakGaussian, [("mu0", fl("mu0")), ("sigma", fl("sigma", 0.5, 2)), ("height", fl("height")), ("offset", fl("offset"))], gaussian),
    (SensorPeakLorentzian, [("mu0", fl("mu0")), ("gamma", fl("gamma", 0.5, 2)), ("height", fl("height")), ("offset", fl("offset"))],
     lorentzian),
    (SensorRiseGLF, [("mu0", fl("mu0"))] + glfpars() + [("fully_conductive_percentage", fl("fc", 0.8, 0.9))], rise),
    (BarrierFunctionGLF, [("pinch_off_percentage", fl("po", 0.1, 0.2)), ("fully_conductive_percentage", fl("fc", 0.8, 0.9))] + glfpars()
     + [("offset", fl("of"))], barrier),
    (SensorPeakDeformationLinear, [("angle", fl("angle", 0.3, 1.2))], linear),
    (SensorPeakDeformationCircle, [("radius", fl("radius", 0.5, 2))], circle),
    (IdealCSDGeometric, [("tct_params", lambda k: [np.array([__atom__("t%d%s" % (j, k)) for j in range(8)])]), ("rotation", fl("rot")),
                         ("lut_entries", lambda k: __atom__("lut" + k, "posint")), ("cdf_type", lambda k: "cauchy" if k == "b" else "sigmoid"),
                         ("cdf_gamma_factor", fl("cg", 1, 2))], ideal),
    (SensorPotentialPinkNoise, [("sigma", fl("s", 0.5, 2)), ("fmin", fl("fmin")), ("rng", rng)], nothing),
    (SensorResponseWhiteNoise, [("sigma", fl("s", 0.5, 2)), ("rng", rng)], nothing),
    (RandomTelegraphNoise, [("scale", fl("sc", 1, 2)), ("std", fl("st", 0.5, 2)), ("height", fl("he", 0.5, 2)), ("ratio", fl("ra", 0.2, 0.8)),
                            ("rng", rng)], nothing),
    (SensorPotentialRTN, [("scale", fl("sc", 1, 2)), ("std", fl("st", 0.5, 2)), ("height", fl("he", 0.5, 2)), ("ratio", fl("ra", 0.2, 0.8)),
                          ("rng", rng)], nothing),
    (SensorResponseRTN, [("scale", fl("sc", 1, 2)), ("std", fl("st", 0.5, 2)), ("height", fl("he", 0.5, 2)), ("ratio", fl("ra", 0.2, 0.8)),
                         ("rng", rng)], nothing),
    (OccupationTransitionBlurringGaussian, [("sigma", fl("s", 0.5, 2))], nothing),
    (OccupationTransitionBlurringFermiDirac, [("sigma", fl("s", 0.5, 2))], nothing),
    (OccupationDotJumps, [("scale", fl("sc", 1, 2)), ("lam", fl("la", 0.5, 2)), ("axis", lambda k: 1 if k == "b" else 0),
                          ("ratio", fl("ra", 0.2, 0.8)), ("rng", rng)], nothing),
]


def settle(label, d, p):
    text = repr(d)
    for n in p:
        __same__(label + ": " + n, getattr(d, n), p[n])
        if n != "rng":
            __shows__(label + ": printed " + n, text, n, p[n])


def component(i):
    cls, pars, use = COMPONENTS[i]
    a = {n: make("a") for n, make in pars}
    d = cls(**a)
    settle("constructed", d, a)
    use(d, a)
    # the same values by position
    d = cls(*[a[n] for n, make in pars])
    settle("by position", d, a)
    use(d, a)
    # one at a time
    p = dict(a)
    for n, make in pars:
        p[n] = make("b")
        setattr(d, n, p[n])
        settle("after assigning " + n, d, p)
        if i != 6 or n in ("tct_params", "cdf_gamma_factor"):
            use(d, p)
    use(d, p)


def seven(k):
    return tuple([f("%s%d" % (k, j)) for j in range(2) for m, f in glfpars() + [("offset", fl("of"))]])


def multi_glf(i):
    a, b = __atom__("po"), __atom__("fc")
    q = seven("a")
    d = BarrierFunctionMultiGLF(a, b, *q)
    __same__("constructed: pinch off", d.pinch_off, a)
    __same__("constructed: fully conductive point", d.fully_conductive, b)
    __same__("constructed: parameters", d.params, q)
    multi(d, {"params": q})
    q = seven("b")
    d.params = q
    d.pinch_off = __atom__("po2")
    d.fully_conductive = __atom__("fc2")
    __same__("assigned: pinch off", d.pinch_off, __atom__("po2"))
    __same__("assigned: fully conductive point", d.fully_conductive, __atom__("fc2"))
    __same__("assigned: parameters", d.params, q)
    multi(d, {"params": q})
    text = repr(d)
    __shows__("printed pinch off", text, "pinch_off", __atom__("po2"))
    __shows__("printed fully conductive point", text, "fully_conductive", __atom__("fc2"))


def refused(i):
    if i == 0:
        make, name, old = (lambda v: SensorPeakGaussian(__atom__("mu0"), v)), "sigma", bounded("ok", 0.5, 1)
        bad = (0, bounded("neg", -2, -1), -1.0)
    elif i == 1:
        make, name, old = (lambda v: SensorPeakLorentzian(__atom__("mu0"), v)), "gamma", bounded("ok", 0.5, 1)
        bad = (0, bounded("neg", -2, -1), -1.0)
    elif i == 2:
        make = lambda v: SensorRiseGLF(mu0=__atom__("mu0"), asymptote_left=0, asymptote_right=1, growth_rate=1, asymmetry=v, shape_factor=1)
        name, old, bad = "asymmetry", bounded("ok", 0.5, 1), (0, bounded("neg", -2, -1))
    elif i == 3:
        make = lambda v: BarrierFunctionGLF(pinch_off_percentage=0.1, fully_conductive_percentage=0.9, asymptote_left=0, asymptote_right=1,
                                            growth_rate=1, asymmetry=v, shape_factor=1)
        name, old, bad = "asymmetry", bounded("ok", 0.5, 1), (0, bounded("neg", -2, -1))
    else:
        make = lambda v: BarrierFunctionMultiGLF(__atom__("po"), __atom__("fc"), *v)
        name, old, bad = "params", seven("a"), (seven("a")[:6], seven("a")[:8], seven("a")[:13])
    d = make(old)
    for v in bad:
        __raises__("refused at construction", "ValueError", lambda: make(v))
        __raises__("refused on assignment", "ValueError", lambda: setattr(d, name, v))
        try:
            setattr(d, name, v)
        except ValueError:
            pass
        __same__("previous value kept", getattr(d, name), old)
